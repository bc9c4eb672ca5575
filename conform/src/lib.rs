#![allow(unused_mut, unused_variables, dead_code, clippy::all, unused_parens, unused_imports, unused_assignments)]
use std::collections::{BTreeMap, HashMap};
#[derive(Clone, Debug, PartialEq)]
pub struct P { pub x: i64, pub y: i64 }
#[derive(Clone, Debug, PartialEq)]
pub enum Sh { Unit, Sq(i64), Rect { w: i64, h: i64 } }
pub fn bump(p: &mut P) { p.x += 1; if p.x > 5 { p.y = 0; } }
pub fn area(s: &Sh) -> i64 { match s { Sh::Unit => 1, Sh::Sq(a) => a * a, Sh::Rect { w, h } => w * h } }
pub fn pick(v: &[i64]) -> Option<i64> { let (a, b) = (v.first()?, v.last()?); if a == b { return None; } Some(a - b) }
pub fn c0_0() -> bool { let s: &str = ""; let got: usize = s.len(); let exp: usize = 0; got == exp }
pub fn s0_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.len(); let exp: usize = 0; got == exp }
pub fn c0_1() -> bool { let s: &str = "a"; let got: usize = s.len(); let exp: usize = 1; got == exp }
pub fn s0_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.len(); let exp: usize = 1; got == exp }
pub fn c0_2() -> bool { let s: &str = "abc"; let got: usize = s.len(); let exp: usize = 3; got == exp }
pub fn s0_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.len(); let exp: usize = 3; got == exp }
pub fn c0_3() -> bool { let s: &str = "%a1"; let got: usize = s.len(); let exp: usize = 3; got == exp }
pub fn s0_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.len(); let exp: usize = 3; got == exp }
pub fn c0_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.len(); let exp: usize = 4; got == exp }
pub fn s0_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.len(); let exp: usize = 4; got == exp }
pub fn c0_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.len(); let exp: usize = 5; got == exp }
pub fn s0_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.len(); let exp: usize = 5; got == exp }
pub fn c0_6() -> bool { let s: &str = "::"; let got: usize = s.len(); let exp: usize = 2; got == exp }
pub fn s0_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.len(); let exp: usize = 2; got == exp }
pub fn c0_7() -> bool { let s: &str = "  x "; let got: usize = s.len(); let exp: usize = 4; got == exp }
pub fn s0_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.len(); let exp: usize = 4; got == exp }
pub fn c0_8() -> bool { let s: &str = "12"; let got: usize = s.len(); let exp: usize = 2; got == exp }
pub fn s0_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.len(); let exp: usize = 2; got == exp }
pub fn c0_9() -> bool { let s: &str = "-5"; let got: usize = s.len(); let exp: usize = 2; got == exp }
pub fn s0_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.len(); let exp: usize = 2; got == exp }
pub fn c0_10() -> bool { let s: &str = "+7"; let got: usize = s.len(); let exp: usize = 2; got == exp }
pub fn s0_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.len(); let exp: usize = 2; got == exp }
pub fn c0_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.len(); let exp: usize = 20; got == exp }
pub fn s0_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.len(); let exp: usize = 20; got == exp }
pub fn c0_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.len(); let exp: usize = 6; got == exp }
pub fn s0_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.len(); let exp: usize = 6; got == exp }
pub fn c0_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.len(); let exp: usize = 6; got == exp }
pub fn s0_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.len(); let exp: usize = 6; got == exp }
pub fn c0_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.len(); let exp: usize = 5; got == exp }
pub fn s0_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.len(); let exp: usize = 5; got == exp }
pub fn c0_15() -> bool { let s: &str = "xx"; let got: usize = s.len(); let exp: usize = 2; got == exp }
pub fn s0_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.len(); let exp: usize = 2; got == exp }
pub fn c1_0() -> bool { let s: &str = ""; let got: usize = s.chars().count(); let exp: usize = 0; got == exp }
pub fn s1_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.chars().count(); let exp: usize = 0; got == exp }
pub fn c1_1() -> bool { let s: &str = "a"; let got: usize = s.chars().count(); let exp: usize = 1; got == exp }
pub fn s1_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.chars().count(); let exp: usize = 1; got == exp }
pub fn c1_2() -> bool { let s: &str = "abc"; let got: usize = s.chars().count(); let exp: usize = 3; got == exp }
pub fn s1_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.chars().count(); let exp: usize = 3; got == exp }
pub fn c1_3() -> bool { let s: &str = "%a1"; let got: usize = s.chars().count(); let exp: usize = 3; got == exp }
pub fn s1_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.chars().count(); let exp: usize = 3; got == exp }
pub fn c1_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.chars().count(); let exp: usize = 3; got == exp }
pub fn s1_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.chars().count(); let exp: usize = 3; got == exp }
pub fn c1_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.chars().count(); let exp: usize = 5; got == exp }
pub fn s1_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.chars().count(); let exp: usize = 5; got == exp }
pub fn c1_6() -> bool { let s: &str = "::"; let got: usize = s.chars().count(); let exp: usize = 2; got == exp }
pub fn s1_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.chars().count(); let exp: usize = 2; got == exp }
pub fn c1_7() -> bool { let s: &str = "  x "; let got: usize = s.chars().count(); let exp: usize = 4; got == exp }
pub fn s1_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.chars().count(); let exp: usize = 4; got == exp }
pub fn c1_8() -> bool { let s: &str = "12"; let got: usize = s.chars().count(); let exp: usize = 2; got == exp }
pub fn s1_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.chars().count(); let exp: usize = 2; got == exp }
pub fn c1_9() -> bool { let s: &str = "-5"; let got: usize = s.chars().count(); let exp: usize = 2; got == exp }
pub fn s1_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.chars().count(); let exp: usize = 2; got == exp }
pub fn c1_10() -> bool { let s: &str = "+7"; let got: usize = s.chars().count(); let exp: usize = 2; got == exp }
pub fn s1_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.chars().count(); let exp: usize = 2; got == exp }
pub fn c1_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.chars().count(); let exp: usize = 20; got == exp }
pub fn s1_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.chars().count(); let exp: usize = 20; got == exp }
pub fn c1_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.chars().count(); let exp: usize = 6; got == exp }
pub fn s1_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.chars().count(); let exp: usize = 6; got == exp }
pub fn c1_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.chars().count(); let exp: usize = 2; got == exp }
pub fn s1_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.chars().count(); let exp: usize = 2; got == exp }
pub fn c1_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.chars().count(); let exp: usize = 2; got == exp }
pub fn s1_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.chars().count(); let exp: usize = 2; got == exp }
pub fn c1_15() -> bool { let s: &str = "xx"; let got: usize = s.chars().count(); let exp: usize = 2; got == exp }
pub fn s1_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.chars().count(); let exp: usize = 2; got == exp }
pub fn c2_0() -> bool { let s: &str = ""; let got: usize = s.lines().count(); let exp: usize = 0; got == exp }
pub fn s2_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.lines().count(); let exp: usize = 0; got == exp }
pub fn c2_1() -> bool { let s: &str = "a"; let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn s2_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn c2_2() -> bool { let s: &str = "abc"; let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn s2_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn c2_3() -> bool { let s: &str = "%a1"; let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn s2_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn c2_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn s2_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn c2_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn s2_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn c2_6() -> bool { let s: &str = "::"; let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn s2_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn c2_7() -> bool { let s: &str = "  x "; let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn s2_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn c2_8() -> bool { let s: &str = "12"; let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn s2_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn c2_9() -> bool { let s: &str = "-5"; let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn s2_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn c2_10() -> bool { let s: &str = "+7"; let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn s2_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn c2_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn s2_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn c2_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.lines().count(); let exp: usize = 3; got == exp }
pub fn s2_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.lines().count(); let exp: usize = 3; got == exp }
pub fn c2_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn s2_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn c2_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn s2_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn c2_15() -> bool { let s: &str = "xx"; let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn s2_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.lines().count(); let exp: usize = 1; got == exp }
pub fn c3_0() -> bool { let s: &str = ""; let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn s3_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn c3_1() -> bool { let s: &str = "a"; let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn s3_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn c3_2() -> bool { let s: &str = "abc"; let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn s3_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn c3_3() -> bool { let s: &str = "%a1"; let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn s3_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn c3_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn s3_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn c3_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.split(':').count(); let exp: usize = 3; got == exp }
pub fn s3_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.split(':').count(); let exp: usize = 3; got == exp }
pub fn c3_6() -> bool { let s: &str = "::"; let got: usize = s.split(':').count(); let exp: usize = 3; got == exp }
pub fn s3_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.split(':').count(); let exp: usize = 3; got == exp }
pub fn c3_7() -> bool { let s: &str = "  x "; let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn s3_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn c3_8() -> bool { let s: &str = "12"; let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn s3_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn c3_9() -> bool { let s: &str = "-5"; let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn s3_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn c3_10() -> bool { let s: &str = "+7"; let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn s3_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn c3_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn s3_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn c3_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn s3_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn c3_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn s3_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn c3_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn s3_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn c3_15() -> bool { let s: &str = "xx"; let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn s3_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.split(':').count(); let exp: usize = 1; got == exp }
pub fn c4_0() -> bool { let s: &str = ""; let got: usize = s.split_whitespace().count(); let exp: usize = 0; got == exp }
pub fn s4_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.split_whitespace().count(); let exp: usize = 0; got == exp }
pub fn c4_1() -> bool { let s: &str = "a"; let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn s4_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn c4_2() -> bool { let s: &str = "abc"; let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn s4_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn c4_3() -> bool { let s: &str = "%a1"; let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn s4_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn c4_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn s4_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn c4_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn s4_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn c4_6() -> bool { let s: &str = "::"; let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn s4_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn c4_7() -> bool { let s: &str = "  x "; let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn s4_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn c4_8() -> bool { let s: &str = "12"; let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn s4_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn c4_9() -> bool { let s: &str = "-5"; let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn s4_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn c4_10() -> bool { let s: &str = "+7"; let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn s4_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn c4_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn s4_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn c4_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.split_whitespace().count(); let exp: usize = 3; got == exp }
pub fn s4_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.split_whitespace().count(); let exp: usize = 3; got == exp }
pub fn c4_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn s4_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn c4_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn s4_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn c4_15() -> bool { let s: &str = "xx"; let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn s4_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.split_whitespace().count(); let exp: usize = 1; got == exp }
pub fn c5_0() -> bool { let s: &str = ""; let got: usize = s.bytes().len(); let exp: usize = 0; got == exp }
pub fn s5_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.bytes().len(); let exp: usize = 0; got == exp }
pub fn c5_1() -> bool { let s: &str = "a"; let got: usize = s.bytes().len(); let exp: usize = 1; got == exp }
pub fn s5_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.bytes().len(); let exp: usize = 1; got == exp }
pub fn c5_2() -> bool { let s: &str = "abc"; let got: usize = s.bytes().len(); let exp: usize = 3; got == exp }
pub fn s5_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.bytes().len(); let exp: usize = 3; got == exp }
pub fn c5_3() -> bool { let s: &str = "%a1"; let got: usize = s.bytes().len(); let exp: usize = 3; got == exp }
pub fn s5_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.bytes().len(); let exp: usize = 3; got == exp }
pub fn c5_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.bytes().len(); let exp: usize = 4; got == exp }
pub fn s5_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.bytes().len(); let exp: usize = 4; got == exp }
pub fn c5_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.bytes().len(); let exp: usize = 5; got == exp }
pub fn s5_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.bytes().len(); let exp: usize = 5; got == exp }
pub fn c5_6() -> bool { let s: &str = "::"; let got: usize = s.bytes().len(); let exp: usize = 2; got == exp }
pub fn s5_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.bytes().len(); let exp: usize = 2; got == exp }
pub fn c5_7() -> bool { let s: &str = "  x "; let got: usize = s.bytes().len(); let exp: usize = 4; got == exp }
pub fn s5_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.bytes().len(); let exp: usize = 4; got == exp }
pub fn c5_8() -> bool { let s: &str = "12"; let got: usize = s.bytes().len(); let exp: usize = 2; got == exp }
pub fn s5_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.bytes().len(); let exp: usize = 2; got == exp }
pub fn c5_9() -> bool { let s: &str = "-5"; let got: usize = s.bytes().len(); let exp: usize = 2; got == exp }
pub fn s5_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.bytes().len(); let exp: usize = 2; got == exp }
pub fn c5_10() -> bool { let s: &str = "+7"; let got: usize = s.bytes().len(); let exp: usize = 2; got == exp }
pub fn s5_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.bytes().len(); let exp: usize = 2; got == exp }
pub fn c5_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.bytes().len(); let exp: usize = 20; got == exp }
pub fn s5_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.bytes().len(); let exp: usize = 20; got == exp }
pub fn c5_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.bytes().len(); let exp: usize = 6; got == exp }
pub fn s5_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.bytes().len(); let exp: usize = 6; got == exp }
pub fn c5_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.bytes().len(); let exp: usize = 6; got == exp }
pub fn s5_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.bytes().len(); let exp: usize = 6; got == exp }
pub fn c5_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.bytes().len(); let exp: usize = 5; got == exp }
pub fn s5_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.bytes().len(); let exp: usize = 5; got == exp }
pub fn c5_15() -> bool { let s: &str = "xx"; let got: usize = s.bytes().len(); let exp: usize = 2; got == exp }
pub fn s5_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.bytes().len(); let exp: usize = 2; got == exp }
pub fn c6_0() -> bool { let s: &str = ""; let got: usize = s.to_uppercase().len(); let exp: usize = 0; got == exp }
pub fn s6_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.to_uppercase().len(); let exp: usize = 0; got == exp }
pub fn c6_1() -> bool { let s: &str = "a"; let got: usize = s.to_uppercase().len(); let exp: usize = 1; got == exp }
pub fn s6_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.to_uppercase().len(); let exp: usize = 1; got == exp }
pub fn c6_2() -> bool { let s: &str = "abc"; let got: usize = s.to_uppercase().len(); let exp: usize = 3; got == exp }
pub fn s6_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.to_uppercase().len(); let exp: usize = 3; got == exp }
pub fn c6_3() -> bool { let s: &str = "%a1"; let got: usize = s.to_uppercase().len(); let exp: usize = 3; got == exp }
pub fn s6_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.to_uppercase().len(); let exp: usize = 3; got == exp }
pub fn c6_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.to_uppercase().len(); let exp: usize = 4; got == exp }
pub fn s6_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.to_uppercase().len(); let exp: usize = 4; got == exp }
pub fn c6_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.to_uppercase().len(); let exp: usize = 5; got == exp }
pub fn s6_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.to_uppercase().len(); let exp: usize = 5; got == exp }
pub fn c6_6() -> bool { let s: &str = "::"; let got: usize = s.to_uppercase().len(); let exp: usize = 2; got == exp }
pub fn s6_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.to_uppercase().len(); let exp: usize = 2; got == exp }
pub fn c6_7() -> bool { let s: &str = "  x "; let got: usize = s.to_uppercase().len(); let exp: usize = 4; got == exp }
pub fn s6_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.to_uppercase().len(); let exp: usize = 4; got == exp }
pub fn c6_8() -> bool { let s: &str = "12"; let got: usize = s.to_uppercase().len(); let exp: usize = 2; got == exp }
pub fn s6_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.to_uppercase().len(); let exp: usize = 2; got == exp }
pub fn c6_9() -> bool { let s: &str = "-5"; let got: usize = s.to_uppercase().len(); let exp: usize = 2; got == exp }
pub fn s6_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.to_uppercase().len(); let exp: usize = 2; got == exp }
pub fn c6_10() -> bool { let s: &str = "+7"; let got: usize = s.to_uppercase().len(); let exp: usize = 2; got == exp }
pub fn s6_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.to_uppercase().len(); let exp: usize = 2; got == exp }
pub fn c6_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.to_uppercase().len(); let exp: usize = 20; got == exp }
pub fn s6_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.to_uppercase().len(); let exp: usize = 20; got == exp }
pub fn c6_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.to_uppercase().len(); let exp: usize = 6; got == exp }
pub fn s6_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.to_uppercase().len(); let exp: usize = 6; got == exp }
pub fn c6_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.to_uppercase().len(); let exp: usize = 6; got == exp }
pub fn s6_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.to_uppercase().len(); let exp: usize = 6; got == exp }
pub fn c6_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.to_uppercase().len(); let exp: usize = 5; got == exp }
pub fn s6_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.to_uppercase().len(); let exp: usize = 5; got == exp }
pub fn c6_15() -> bool { let s: &str = "xx"; let got: usize = s.to_uppercase().len(); let exp: usize = 2; got == exp }
pub fn s6_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.to_uppercase().len(); let exp: usize = 2; got == exp }
pub fn c7_0() -> bool { let s: &str = ""; let got: bool = s.is_empty(); let exp: bool = true; got == exp }
pub fn s7_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.is_empty(); let exp: bool = true; got == exp }
pub fn c7_1() -> bool { let s: &str = "a"; let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn s7_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn c7_2() -> bool { let s: &str = "abc"; let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn s7_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn c7_3() -> bool { let s: &str = "%a1"; let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn s7_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn c7_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn s7_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn c7_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn s7_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn c7_6() -> bool { let s: &str = "::"; let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn s7_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn c7_7() -> bool { let s: &str = "  x "; let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn s7_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn c7_8() -> bool { let s: &str = "12"; let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn s7_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn c7_9() -> bool { let s: &str = "-5"; let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn s7_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn c7_10() -> bool { let s: &str = "+7"; let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn s7_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn c7_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn s7_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn c7_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn s7_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn c7_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn s7_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn c7_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn s7_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn c7_15() -> bool { let s: &str = "xx"; let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn s7_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.is_empty(); let exp: bool = false; got == exp }
pub fn c8_0() -> bool { let s: &str = ""; let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn s8_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn c8_1() -> bool { let s: &str = "a"; let got: bool = s.starts_with('a'); let exp: bool = true; got == exp }
pub fn s8_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.starts_with('a'); let exp: bool = true; got == exp }
pub fn c8_2() -> bool { let s: &str = "abc"; let got: bool = s.starts_with('a'); let exp: bool = true; got == exp }
pub fn s8_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.starts_with('a'); let exp: bool = true; got == exp }
pub fn c8_3() -> bool { let s: &str = "%a1"; let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn s8_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn c8_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn s8_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn c8_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.starts_with('a'); let exp: bool = true; got == exp }
pub fn s8_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.starts_with('a'); let exp: bool = true; got == exp }
pub fn c8_6() -> bool { let s: &str = "::"; let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn s8_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn c8_7() -> bool { let s: &str = "  x "; let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn s8_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn c8_8() -> bool { let s: &str = "12"; let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn s8_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn c8_9() -> bool { let s: &str = "-5"; let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn s8_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn c8_10() -> bool { let s: &str = "+7"; let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn s8_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn c8_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn s8_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn c8_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.starts_with('a'); let exp: bool = true; got == exp }
pub fn s8_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.starts_with('a'); let exp: bool = true; got == exp }
pub fn c8_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn s8_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn c8_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn s8_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn c8_15() -> bool { let s: &str = "xx"; let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn s8_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.starts_with('a'); let exp: bool = false; got == exp }
pub fn c9_0() -> bool { let s: &str = ""; let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn s9_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn c9_1() -> bool { let s: &str = "a"; let got: bool = s.ends_with('a'); let exp: bool = true; got == exp }
pub fn s9_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.ends_with('a'); let exp: bool = true; got == exp }
pub fn c9_2() -> bool { let s: &str = "abc"; let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn s9_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn c9_3() -> bool { let s: &str = "%a1"; let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn s9_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn c9_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn s9_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn c9_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn s9_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn c9_6() -> bool { let s: &str = "::"; let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn s9_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn c9_7() -> bool { let s: &str = "  x "; let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn s9_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn c9_8() -> bool { let s: &str = "12"; let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn s9_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn c9_9() -> bool { let s: &str = "-5"; let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn s9_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn c9_10() -> bool { let s: &str = "+7"; let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn s9_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn c9_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn s9_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn c9_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn s9_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn c9_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn s9_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn c9_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn s9_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn c9_15() -> bool { let s: &str = "xx"; let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn s9_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.ends_with('a'); let exp: bool = false; got == exp }
pub fn c10_0() -> bool { let s: &str = ""; let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn s10_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn c10_1() -> bool { let s: &str = "a"; let got: bool = s.contains('a'); let exp: bool = true; got == exp }
pub fn s10_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.contains('a'); let exp: bool = true; got == exp }
pub fn c10_2() -> bool { let s: &str = "abc"; let got: bool = s.contains('a'); let exp: bool = true; got == exp }
pub fn s10_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.contains('a'); let exp: bool = true; got == exp }
pub fn c10_3() -> bool { let s: &str = "%a1"; let got: bool = s.contains('a'); let exp: bool = true; got == exp }
pub fn s10_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.contains('a'); let exp: bool = true; got == exp }
pub fn c10_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn s10_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn c10_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.contains('a'); let exp: bool = true; got == exp }
pub fn s10_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.contains('a'); let exp: bool = true; got == exp }
pub fn c10_6() -> bool { let s: &str = "::"; let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn s10_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn c10_7() -> bool { let s: &str = "  x "; let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn s10_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn c10_8() -> bool { let s: &str = "12"; let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn s10_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn c10_9() -> bool { let s: &str = "-5"; let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn s10_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn c10_10() -> bool { let s: &str = "+7"; let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn s10_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn c10_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn s10_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn c10_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.contains('a'); let exp: bool = true; got == exp }
pub fn s10_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.contains('a'); let exp: bool = true; got == exp }
pub fn c10_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn s10_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn c10_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn s10_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn c10_15() -> bool { let s: &str = "xx"; let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn s10_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.contains('a'); let exp: bool = false; got == exp }
pub fn c11_0() -> bool { let s: &str = ""; let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn s11_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn c11_1() -> bool { let s: &str = "a"; let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn s11_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn c11_2() -> bool { let s: &str = "abc"; let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn s11_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn c11_3() -> bool { let s: &str = "%a1"; let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn s11_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn c11_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn s11_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn c11_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn s11_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn c11_6() -> bool { let s: &str = "::"; let got: bool = s.starts_with(':'); let exp: bool = true; got == exp }
pub fn s11_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.starts_with(':'); let exp: bool = true; got == exp }
pub fn c11_7() -> bool { let s: &str = "  x "; let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn s11_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn c11_8() -> bool { let s: &str = "12"; let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn s11_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn c11_9() -> bool { let s: &str = "-5"; let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn s11_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn c11_10() -> bool { let s: &str = "+7"; let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn s11_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn c11_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn s11_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn c11_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn s11_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn c11_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn s11_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn c11_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn s11_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn c11_15() -> bool { let s: &str = "xx"; let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn s11_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.starts_with(':'); let exp: bool = false; got == exp }
pub fn c12_0() -> bool { let s: &str = ""; let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn s12_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn c12_1() -> bool { let s: &str = "a"; let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn s12_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn c12_2() -> bool { let s: &str = "abc"; let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn s12_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn c12_3() -> bool { let s: &str = "%a1"; let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn s12_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn c12_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn s12_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn c12_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn s12_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn c12_6() -> bool { let s: &str = "::"; let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn s12_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn c12_7() -> bool { let s: &str = "  x "; let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn s12_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn c12_8() -> bool { let s: &str = "12"; let got: bool = s.starts_with(char::is_numeric); let exp: bool = true; got == exp }
pub fn s12_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.starts_with(char::is_numeric); let exp: bool = true; got == exp }
pub fn c12_9() -> bool { let s: &str = "-5"; let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn s12_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn c12_10() -> bool { let s: &str = "+7"; let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn s12_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn c12_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.starts_with(char::is_numeric); let exp: bool = true; got == exp }
pub fn s12_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.starts_with(char::is_numeric); let exp: bool = true; got == exp }
pub fn c12_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn s12_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn c12_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn s12_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn c12_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn s12_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn c12_15() -> bool { let s: &str = "xx"; let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn s12_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.starts_with(char::is_numeric); let exp: bool = false; got == exp }
pub fn c13_0() -> bool { let s: &str = ""; let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn s13_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn c13_1() -> bool { let s: &str = "a"; let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn s13_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn c13_2() -> bool { let s: &str = "abc"; let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = true; got == exp }
pub fn s13_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = true; got == exp }
pub fn c13_3() -> bool { let s: &str = "%a1"; let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn s13_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn c13_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn s13_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn c13_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = true; got == exp }
pub fn s13_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = true; got == exp }
pub fn c13_6() -> bool { let s: &str = "::"; let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn s13_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn c13_7() -> bool { let s: &str = "  x "; let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn s13_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn c13_8() -> bool { let s: &str = "12"; let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn s13_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn c13_9() -> bool { let s: &str = "-5"; let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn s13_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn c13_10() -> bool { let s: &str = "+7"; let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn s13_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn c13_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn s13_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn c13_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = true; got == exp }
pub fn s13_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = true; got == exp }
pub fn c13_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn s13_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn c13_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn s13_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn c13_15() -> bool { let s: &str = "xx"; let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn s13_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.ends_with(|c: char| c == 'c'); let exp: bool = false; got == exp }
pub fn c14_0() -> bool { let s: &str = ""; let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = true; got == exp }
pub fn s14_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = true; got == exp }
pub fn c14_1() -> bool { let s: &str = "a"; let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn s14_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn c14_2() -> bool { let s: &str = "abc"; let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn s14_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn c14_3() -> bool { let s: &str = "%a1"; let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn s14_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn c14_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn s14_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn c14_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn s14_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn c14_6() -> bool { let s: &str = "::"; let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn s14_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn c14_7() -> bool { let s: &str = "  x "; let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn s14_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn c14_8() -> bool { let s: &str = "12"; let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = true; got == exp }
pub fn s14_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = true; got == exp }
pub fn c14_9() -> bool { let s: &str = "-5"; let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn s14_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn c14_10() -> bool { let s: &str = "+7"; let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn s14_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn c14_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = true; got == exp }
pub fn s14_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = true; got == exp }
pub fn c14_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn s14_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn c14_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn s14_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn c14_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn s14_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn c14_15() -> bool { let s: &str = "xx"; let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn s14_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_digit()); let exp: bool = false; got == exp }
pub fn c15_0() -> bool { let s: &str = ""; let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn s15_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn c15_1() -> bool { let s: &str = "a"; let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn s15_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn c15_2() -> bool { let s: &str = "abc"; let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn s15_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn c15_3() -> bool { let s: &str = "%a1"; let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn s15_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn c15_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn s15_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn c15_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.chars().any(|c| c == ':'); let exp: bool = true; got == exp }
pub fn s15_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.chars().any(|c| c == ':'); let exp: bool = true; got == exp }
pub fn c15_6() -> bool { let s: &str = "::"; let got: bool = s.chars().any(|c| c == ':'); let exp: bool = true; got == exp }
pub fn s15_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.chars().any(|c| c == ':'); let exp: bool = true; got == exp }
pub fn c15_7() -> bool { let s: &str = "  x "; let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn s15_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn c15_8() -> bool { let s: &str = "12"; let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn s15_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn c15_9() -> bool { let s: &str = "-5"; let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn s15_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn c15_10() -> bool { let s: &str = "+7"; let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn s15_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn c15_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn s15_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn c15_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn s15_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn c15_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn s15_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn c15_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn s15_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn c15_15() -> bool { let s: &str = "xx"; let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn s15_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.chars().any(|c| c == ':'); let exp: bool = false; got == exp }
pub fn c16_0() -> bool { let s: &str = ""; let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn s16_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn c16_1() -> bool { let s: &str = "a"; let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn s16_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn c16_2() -> bool { let s: &str = "abc"; let got: bool = s == "abc"; let exp: bool = true; got == exp }
pub fn s16_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s == "abc"; let exp: bool = true; got == exp }
pub fn c16_3() -> bool { let s: &str = "%a1"; let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn s16_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn c16_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn s16_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn c16_5() -> bool { let s: &str = "a:b:c"; let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn s16_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn c16_6() -> bool { let s: &str = "::"; let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn s16_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn c16_7() -> bool { let s: &str = "  x "; let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn s16_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn c16_8() -> bool { let s: &str = "12"; let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn s16_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn c16_9() -> bool { let s: &str = "-5"; let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn s16_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn c16_10() -> bool { let s: &str = "+7"; let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn s16_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn c16_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn s16_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn c16_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn s16_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn c16_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn s16_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn c16_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn s16_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn c16_15() -> bool { let s: &str = "xx"; let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn s16_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s == "abc"; let exp: bool = false; got == exp }
pub fn c17_0() -> bool { let s: &str = ""; let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn s17_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn c17_1() -> bool { let s: &str = "a"; let got: bool = s != "a"; let exp: bool = false; got == exp }
pub fn s17_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s != "a"; let exp: bool = false; got == exp }
pub fn c17_2() -> bool { let s: &str = "abc"; let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn s17_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn c17_3() -> bool { let s: &str = "%a1"; let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn s17_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn c17_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn s17_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn c17_5() -> bool { let s: &str = "a:b:c"; let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn s17_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn c17_6() -> bool { let s: &str = "::"; let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn s17_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn c17_7() -> bool { let s: &str = "  x "; let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn s17_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn c17_8() -> bool { let s: &str = "12"; let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn s17_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn c17_9() -> bool { let s: &str = "-5"; let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn s17_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn c17_10() -> bool { let s: &str = "+7"; let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn s17_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn c17_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn s17_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn c17_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn s17_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn c17_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn s17_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn c17_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn s17_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn c17_15() -> bool { let s: &str = "xx"; let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn s17_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s != "a"; let exp: bool = true; got == exp }
pub fn c18_0() -> bool { let s: &str = ""; let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn s18_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn c18_1() -> bool { let s: &str = "a"; let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn s18_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn c18_2() -> bool { let s: &str = "abc"; let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn s18_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn c18_3() -> bool { let s: &str = "%a1"; let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn s18_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn c18_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s < "b"; let exp: bool = false; got == exp }
pub fn s18_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s < "b"; let exp: bool = false; got == exp }
pub fn c18_5() -> bool { let s: &str = "a:b:c"; let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn s18_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn c18_6() -> bool { let s: &str = "::"; let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn s18_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn c18_7() -> bool { let s: &str = "  x "; let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn s18_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn c18_8() -> bool { let s: &str = "12"; let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn s18_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn c18_9() -> bool { let s: &str = "-5"; let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn s18_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn c18_10() -> bool { let s: &str = "+7"; let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn s18_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn c18_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn s18_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn c18_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn s18_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s < "b"; let exp: bool = true; got == exp }
pub fn c18_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s < "b"; let exp: bool = false; got == exp }
pub fn s18_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s < "b"; let exp: bool = false; got == exp }
pub fn c18_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s < "b"; let exp: bool = false; got == exp }
pub fn s18_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s < "b"; let exp: bool = false; got == exp }
pub fn c18_15() -> bool { let s: &str = "xx"; let got: bool = s < "b"; let exp: bool = false; got == exp }
pub fn s18_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s < "b"; let exp: bool = false; got == exp }
pub fn c19_0() -> bool { let s: &str = ""; let got: bool = s.chars().next().is_some(); let exp: bool = false; got == exp }
pub fn s19_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.chars().next().is_some(); let exp: bool = false; got == exp }
pub fn c19_1() -> bool { let s: &str = "a"; let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn s19_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn c19_2() -> bool { let s: &str = "abc"; let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn s19_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn c19_3() -> bool { let s: &str = "%a1"; let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn s19_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn c19_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn s19_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn c19_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn s19_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn c19_6() -> bool { let s: &str = "::"; let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn s19_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn c19_7() -> bool { let s: &str = "  x "; let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn s19_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn c19_8() -> bool { let s: &str = "12"; let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn s19_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn c19_9() -> bool { let s: &str = "-5"; let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn s19_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn c19_10() -> bool { let s: &str = "+7"; let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn s19_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn c19_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn s19_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn c19_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn s19_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn c19_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn s19_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn c19_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn s19_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn c19_15() -> bool { let s: &str = "xx"; let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn s19_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.chars().next().is_some(); let exp: bool = true; got == exp }
pub fn c20_0() -> bool { let s: &str = ""; let p: &str = "a"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_0(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "a") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_1() -> bool { let s: &str = ""; let p: &str = ":"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_1(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == ":") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_2() -> bool { let s: &str = ""; let p: &str = "x"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_2(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "x") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_3() -> bool { let s: &str = ""; let p: &str = "b:"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_3(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "b:") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_4() -> bool { let s: &str = ""; let p: &str = "zz"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_4(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "zz") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_5() -> bool { let s: &str = "a"; let p: &str = "a"; let got: bool = s.starts_with(p); let exp: bool = true; got == exp }
pub fn s20_5(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "a") { return true; } let got: bool = s.starts_with(p); let exp: bool = true; got == exp }
pub fn c20_6() -> bool { let s: &str = "a"; let p: &str = ":"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_6(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == ":") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_7() -> bool { let s: &str = "a"; let p: &str = "x"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_7(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "x") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_8() -> bool { let s: &str = "a"; let p: &str = "b:"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_8(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "b:") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_9() -> bool { let s: &str = "a"; let p: &str = "zz"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_9(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "zz") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_10() -> bool { let s: &str = "abc"; let p: &str = "a"; let got: bool = s.starts_with(p); let exp: bool = true; got == exp }
pub fn s20_10(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "a") { return true; } let got: bool = s.starts_with(p); let exp: bool = true; got == exp }
pub fn c20_11() -> bool { let s: &str = "abc"; let p: &str = ":"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_11(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == ":") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_12() -> bool { let s: &str = "abc"; let p: &str = "x"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_12(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "x") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_13() -> bool { let s: &str = "abc"; let p: &str = "b:"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_13(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "b:") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_14() -> bool { let s: &str = "abc"; let p: &str = "zz"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_14(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "zz") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_15() -> bool { let s: &str = "%a1"; let p: &str = "a"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_15(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "a") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_16() -> bool { let s: &str = "%a1"; let p: &str = ":"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_16(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == ":") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_17() -> bool { let s: &str = "%a1"; let p: &str = "x"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_17(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "x") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_18() -> bool { let s: &str = "%a1"; let p: &str = "b:"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_18(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "b:") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_19() -> bool { let s: &str = "%a1"; let p: &str = "zz"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_19(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "zz") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_20() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "a"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_20(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "a") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_21() -> bool { let s: &str = "\u{e9}%x"; let p: &str = ":"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_21(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == ":") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_22() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "x"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_22(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "x") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_23() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "b:"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_23(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "b:") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_24() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "zz"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_24(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "zz") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_25() -> bool { let s: &str = "a:b:c"; let p: &str = "a"; let got: bool = s.starts_with(p); let exp: bool = true; got == exp }
pub fn s20_25(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "a") { return true; } let got: bool = s.starts_with(p); let exp: bool = true; got == exp }
pub fn c20_26() -> bool { let s: &str = "a:b:c"; let p: &str = ":"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_26(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == ":") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_27() -> bool { let s: &str = "a:b:c"; let p: &str = "x"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_27(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "x") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_28() -> bool { let s: &str = "a:b:c"; let p: &str = "b:"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_28(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "b:") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_29() -> bool { let s: &str = "a:b:c"; let p: &str = "zz"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_29(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "zz") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_30() -> bool { let s: &str = "::"; let p: &str = "a"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_30(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "a") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_31() -> bool { let s: &str = "::"; let p: &str = ":"; let got: bool = s.starts_with(p); let exp: bool = true; got == exp }
pub fn s20_31(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == ":") { return true; } let got: bool = s.starts_with(p); let exp: bool = true; got == exp }
pub fn c20_32() -> bool { let s: &str = "::"; let p: &str = "x"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_32(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "x") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_33() -> bool { let s: &str = "::"; let p: &str = "b:"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_33(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "b:") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_34() -> bool { let s: &str = "::"; let p: &str = "zz"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_34(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "zz") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_35() -> bool { let s: &str = "  x "; let p: &str = "a"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_35(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "a") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_36() -> bool { let s: &str = "  x "; let p: &str = ":"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_36(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == ":") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_37() -> bool { let s: &str = "  x "; let p: &str = "x"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_37(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "x") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_38() -> bool { let s: &str = "  x "; let p: &str = "b:"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_38(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "b:") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_39() -> bool { let s: &str = "  x "; let p: &str = "zz"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_39(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "zz") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_40() -> bool { let s: &str = "12"; let p: &str = "a"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_40(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "a") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_41() -> bool { let s: &str = "12"; let p: &str = ":"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_41(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == ":") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_42() -> bool { let s: &str = "12"; let p: &str = "x"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_42(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "x") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_43() -> bool { let s: &str = "12"; let p: &str = "b:"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_43(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "b:") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_44() -> bool { let s: &str = "12"; let p: &str = "zz"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_44(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "zz") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_45() -> bool { let s: &str = "-5"; let p: &str = "a"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_45(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "a") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_46() -> bool { let s: &str = "-5"; let p: &str = ":"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_46(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == ":") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_47() -> bool { let s: &str = "-5"; let p: &str = "x"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_47(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "x") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_48() -> bool { let s: &str = "-5"; let p: &str = "b:"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_48(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "b:") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_49() -> bool { let s: &str = "-5"; let p: &str = "zz"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_49(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "zz") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_50() -> bool { let s: &str = "+7"; let p: &str = "a"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_50(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "a") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_51() -> bool { let s: &str = "+7"; let p: &str = ":"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_51(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == ":") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_52() -> bool { let s: &str = "+7"; let p: &str = "x"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_52(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "x") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_53() -> bool { let s: &str = "+7"; let p: &str = "b:"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_53(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "b:") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_54() -> bool { let s: &str = "+7"; let p: &str = "zz"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_54(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "zz") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_55() -> bool { let s: &str = "99999999999999999999"; let p: &str = "a"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_55(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "a") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_56() -> bool { let s: &str = "99999999999999999999"; let p: &str = ":"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_56(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == ":") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_57() -> bool { let s: &str = "99999999999999999999"; let p: &str = "x"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_57(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "x") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_58() -> bool { let s: &str = "99999999999999999999"; let p: &str = "b:"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_58(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "b:") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_59() -> bool { let s: &str = "99999999999999999999"; let p: &str = "zz"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_59(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "zz") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_60() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "a"; let got: bool = s.starts_with(p); let exp: bool = true; got == exp }
pub fn s20_60(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "a") { return true; } let got: bool = s.starts_with(p); let exp: bool = true; got == exp }
pub fn c20_61() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = ":"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_61(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == ":") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_62() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "x"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_62(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "x") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_63() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "b:"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_63(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "b:") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_64() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "zz"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_64(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "zz") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_65() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "a"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_65(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "a") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_66() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = ":"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_66(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == ":") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_67() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "x"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_67(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "x") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_68() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "b:"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_68(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "b:") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_69() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "zz"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_69(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "zz") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_70() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "a"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_70(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "a") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_71() -> bool { let s: &str = "\u{1f600}z"; let p: &str = ":"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_71(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == ":") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_72() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "x"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_72(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "x") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_73() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "b:"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_73(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "b:") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_74() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "zz"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_74(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "zz") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_75() -> bool { let s: &str = "xx"; let p: &str = "a"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_75(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "a") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_76() -> bool { let s: &str = "xx"; let p: &str = ":"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_76(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == ":") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_77() -> bool { let s: &str = "xx"; let p: &str = "x"; let got: bool = s.starts_with(p); let exp: bool = true; got == exp }
pub fn s20_77(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "x") { return true; } let got: bool = s.starts_with(p); let exp: bool = true; got == exp }
pub fn c20_78() -> bool { let s: &str = "xx"; let p: &str = "b:"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_78(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "b:") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c20_79() -> bool { let s: &str = "xx"; let p: &str = "zz"; let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn s20_79(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "zz") { return true; } let got: bool = s.starts_with(p); let exp: bool = false; got == exp }
pub fn c21_0() -> bool { let s: &str = ""; let p: &str = "a"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_0(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "a") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_1() -> bool { let s: &str = ""; let p: &str = ":"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_1(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == ":") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_2() -> bool { let s: &str = ""; let p: &str = "x"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_2(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "x") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_3() -> bool { let s: &str = ""; let p: &str = "b:"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_3(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "b:") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_4() -> bool { let s: &str = ""; let p: &str = "zz"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_4(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "zz") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_5() -> bool { let s: &str = "a"; let p: &str = "a"; let got: bool = s.ends_with(p); let exp: bool = true; got == exp }
pub fn s21_5(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "a") { return true; } let got: bool = s.ends_with(p); let exp: bool = true; got == exp }
pub fn c21_6() -> bool { let s: &str = "a"; let p: &str = ":"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_6(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == ":") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_7() -> bool { let s: &str = "a"; let p: &str = "x"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_7(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "x") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_8() -> bool { let s: &str = "a"; let p: &str = "b:"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_8(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "b:") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_9() -> bool { let s: &str = "a"; let p: &str = "zz"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_9(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "zz") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_10() -> bool { let s: &str = "abc"; let p: &str = "a"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_10(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "a") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_11() -> bool { let s: &str = "abc"; let p: &str = ":"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_11(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == ":") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_12() -> bool { let s: &str = "abc"; let p: &str = "x"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_12(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "x") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_13() -> bool { let s: &str = "abc"; let p: &str = "b:"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_13(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "b:") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_14() -> bool { let s: &str = "abc"; let p: &str = "zz"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_14(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "zz") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_15() -> bool { let s: &str = "%a1"; let p: &str = "a"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_15(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "a") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_16() -> bool { let s: &str = "%a1"; let p: &str = ":"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_16(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == ":") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_17() -> bool { let s: &str = "%a1"; let p: &str = "x"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_17(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "x") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_18() -> bool { let s: &str = "%a1"; let p: &str = "b:"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_18(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "b:") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_19() -> bool { let s: &str = "%a1"; let p: &str = "zz"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_19(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "zz") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_20() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "a"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_20(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "a") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_21() -> bool { let s: &str = "\u{e9}%x"; let p: &str = ":"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_21(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == ":") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_22() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "x"; let got: bool = s.ends_with(p); let exp: bool = true; got == exp }
pub fn s21_22(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "x") { return true; } let got: bool = s.ends_with(p); let exp: bool = true; got == exp }
pub fn c21_23() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "b:"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_23(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "b:") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_24() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "zz"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_24(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "zz") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_25() -> bool { let s: &str = "a:b:c"; let p: &str = "a"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_25(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "a") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_26() -> bool { let s: &str = "a:b:c"; let p: &str = ":"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_26(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == ":") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_27() -> bool { let s: &str = "a:b:c"; let p: &str = "x"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_27(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "x") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_28() -> bool { let s: &str = "a:b:c"; let p: &str = "b:"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_28(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "b:") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_29() -> bool { let s: &str = "a:b:c"; let p: &str = "zz"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_29(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "zz") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_30() -> bool { let s: &str = "::"; let p: &str = "a"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_30(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "a") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_31() -> bool { let s: &str = "::"; let p: &str = ":"; let got: bool = s.ends_with(p); let exp: bool = true; got == exp }
pub fn s21_31(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == ":") { return true; } let got: bool = s.ends_with(p); let exp: bool = true; got == exp }
pub fn c21_32() -> bool { let s: &str = "::"; let p: &str = "x"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_32(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "x") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_33() -> bool { let s: &str = "::"; let p: &str = "b:"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_33(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "b:") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_34() -> bool { let s: &str = "::"; let p: &str = "zz"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_34(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "zz") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_35() -> bool { let s: &str = "  x "; let p: &str = "a"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_35(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "a") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_36() -> bool { let s: &str = "  x "; let p: &str = ":"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_36(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == ":") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_37() -> bool { let s: &str = "  x "; let p: &str = "x"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_37(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "x") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_38() -> bool { let s: &str = "  x "; let p: &str = "b:"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_38(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "b:") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_39() -> bool { let s: &str = "  x "; let p: &str = "zz"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_39(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "zz") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_40() -> bool { let s: &str = "12"; let p: &str = "a"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_40(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "a") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_41() -> bool { let s: &str = "12"; let p: &str = ":"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_41(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == ":") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_42() -> bool { let s: &str = "12"; let p: &str = "x"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_42(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "x") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_43() -> bool { let s: &str = "12"; let p: &str = "b:"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_43(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "b:") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_44() -> bool { let s: &str = "12"; let p: &str = "zz"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_44(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "zz") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_45() -> bool { let s: &str = "-5"; let p: &str = "a"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_45(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "a") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_46() -> bool { let s: &str = "-5"; let p: &str = ":"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_46(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == ":") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_47() -> bool { let s: &str = "-5"; let p: &str = "x"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_47(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "x") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_48() -> bool { let s: &str = "-5"; let p: &str = "b:"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_48(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "b:") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_49() -> bool { let s: &str = "-5"; let p: &str = "zz"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_49(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "zz") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_50() -> bool { let s: &str = "+7"; let p: &str = "a"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_50(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "a") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_51() -> bool { let s: &str = "+7"; let p: &str = ":"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_51(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == ":") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_52() -> bool { let s: &str = "+7"; let p: &str = "x"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_52(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "x") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_53() -> bool { let s: &str = "+7"; let p: &str = "b:"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_53(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "b:") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_54() -> bool { let s: &str = "+7"; let p: &str = "zz"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_54(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "zz") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_55() -> bool { let s: &str = "99999999999999999999"; let p: &str = "a"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_55(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "a") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_56() -> bool { let s: &str = "99999999999999999999"; let p: &str = ":"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_56(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == ":") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_57() -> bool { let s: &str = "99999999999999999999"; let p: &str = "x"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_57(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "x") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_58() -> bool { let s: &str = "99999999999999999999"; let p: &str = "b:"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_58(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "b:") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_59() -> bool { let s: &str = "99999999999999999999"; let p: &str = "zz"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_59(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "zz") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_60() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "a"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_60(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "a") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_61() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = ":"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_61(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == ":") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_62() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "x"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_62(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "x") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_63() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "b:"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_63(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "b:") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_64() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "zz"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_64(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "zz") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_65() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "a"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_65(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "a") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_66() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = ":"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_66(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == ":") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_67() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "x"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_67(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "x") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_68() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "b:"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_68(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "b:") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_69() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "zz"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_69(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "zz") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_70() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "a"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_70(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "a") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_71() -> bool { let s: &str = "\u{1f600}z"; let p: &str = ":"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_71(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == ":") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_72() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "x"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_72(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "x") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_73() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "b:"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_73(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "b:") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_74() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "zz"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_74(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "zz") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_75() -> bool { let s: &str = "xx"; let p: &str = "a"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_75(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "a") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_76() -> bool { let s: &str = "xx"; let p: &str = ":"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_76(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == ":") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_77() -> bool { let s: &str = "xx"; let p: &str = "x"; let got: bool = s.ends_with(p); let exp: bool = true; got == exp }
pub fn s21_77(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "x") { return true; } let got: bool = s.ends_with(p); let exp: bool = true; got == exp }
pub fn c21_78() -> bool { let s: &str = "xx"; let p: &str = "b:"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_78(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "b:") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c21_79() -> bool { let s: &str = "xx"; let p: &str = "zz"; let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn s21_79(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "zz") { return true; } let got: bool = s.ends_with(p); let exp: bool = false; got == exp }
pub fn c22_0() -> bool { let s: &str = ""; let p: &str = "a"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_0(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "a") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_1() -> bool { let s: &str = ""; let p: &str = ":"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_1(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == ":") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_2() -> bool { let s: &str = ""; let p: &str = "x"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_2(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "x") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_3() -> bool { let s: &str = ""; let p: &str = "b:"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_3(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "b:") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_4() -> bool { let s: &str = ""; let p: &str = "zz"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_4(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "zz") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_5() -> bool { let s: &str = "a"; let p: &str = "a"; let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn s22_5(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "a") { return true; } let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn c22_6() -> bool { let s: &str = "a"; let p: &str = ":"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_6(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == ":") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_7() -> bool { let s: &str = "a"; let p: &str = "x"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_7(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "x") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_8() -> bool { let s: &str = "a"; let p: &str = "b:"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_8(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "b:") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_9() -> bool { let s: &str = "a"; let p: &str = "zz"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_9(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "zz") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_10() -> bool { let s: &str = "abc"; let p: &str = "a"; let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn s22_10(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "a") { return true; } let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn c22_11() -> bool { let s: &str = "abc"; let p: &str = ":"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_11(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == ":") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_12() -> bool { let s: &str = "abc"; let p: &str = "x"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_12(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "x") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_13() -> bool { let s: &str = "abc"; let p: &str = "b:"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_13(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "b:") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_14() -> bool { let s: &str = "abc"; let p: &str = "zz"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_14(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "zz") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_15() -> bool { let s: &str = "%a1"; let p: &str = "a"; let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn s22_15(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "a") { return true; } let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn c22_16() -> bool { let s: &str = "%a1"; let p: &str = ":"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_16(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == ":") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_17() -> bool { let s: &str = "%a1"; let p: &str = "x"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_17(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "x") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_18() -> bool { let s: &str = "%a1"; let p: &str = "b:"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_18(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "b:") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_19() -> bool { let s: &str = "%a1"; let p: &str = "zz"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_19(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "zz") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_20() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "a"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_20(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "a") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_21() -> bool { let s: &str = "\u{e9}%x"; let p: &str = ":"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_21(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == ":") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_22() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "x"; let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn s22_22(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "x") { return true; } let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn c22_23() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "b:"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_23(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "b:") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_24() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "zz"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_24(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "zz") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_25() -> bool { let s: &str = "a:b:c"; let p: &str = "a"; let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn s22_25(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "a") { return true; } let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn c22_26() -> bool { let s: &str = "a:b:c"; let p: &str = ":"; let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn s22_26(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == ":") { return true; } let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn c22_27() -> bool { let s: &str = "a:b:c"; let p: &str = "x"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_27(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "x") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_28() -> bool { let s: &str = "a:b:c"; let p: &str = "b:"; let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn s22_28(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "b:") { return true; } let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn c22_29() -> bool { let s: &str = "a:b:c"; let p: &str = "zz"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_29(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "zz") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_30() -> bool { let s: &str = "::"; let p: &str = "a"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_30(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "a") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_31() -> bool { let s: &str = "::"; let p: &str = ":"; let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn s22_31(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == ":") { return true; } let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn c22_32() -> bool { let s: &str = "::"; let p: &str = "x"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_32(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "x") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_33() -> bool { let s: &str = "::"; let p: &str = "b:"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_33(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "b:") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_34() -> bool { let s: &str = "::"; let p: &str = "zz"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_34(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "zz") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_35() -> bool { let s: &str = "  x "; let p: &str = "a"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_35(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "a") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_36() -> bool { let s: &str = "  x "; let p: &str = ":"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_36(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == ":") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_37() -> bool { let s: &str = "  x "; let p: &str = "x"; let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn s22_37(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "x") { return true; } let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn c22_38() -> bool { let s: &str = "  x "; let p: &str = "b:"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_38(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "b:") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_39() -> bool { let s: &str = "  x "; let p: &str = "zz"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_39(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "zz") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_40() -> bool { let s: &str = "12"; let p: &str = "a"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_40(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "a") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_41() -> bool { let s: &str = "12"; let p: &str = ":"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_41(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == ":") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_42() -> bool { let s: &str = "12"; let p: &str = "x"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_42(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "x") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_43() -> bool { let s: &str = "12"; let p: &str = "b:"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_43(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "b:") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_44() -> bool { let s: &str = "12"; let p: &str = "zz"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_44(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "zz") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_45() -> bool { let s: &str = "-5"; let p: &str = "a"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_45(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "a") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_46() -> bool { let s: &str = "-5"; let p: &str = ":"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_46(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == ":") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_47() -> bool { let s: &str = "-5"; let p: &str = "x"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_47(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "x") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_48() -> bool { let s: &str = "-5"; let p: &str = "b:"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_48(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "b:") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_49() -> bool { let s: &str = "-5"; let p: &str = "zz"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_49(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "zz") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_50() -> bool { let s: &str = "+7"; let p: &str = "a"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_50(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "a") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_51() -> bool { let s: &str = "+7"; let p: &str = ":"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_51(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == ":") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_52() -> bool { let s: &str = "+7"; let p: &str = "x"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_52(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "x") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_53() -> bool { let s: &str = "+7"; let p: &str = "b:"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_53(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "b:") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_54() -> bool { let s: &str = "+7"; let p: &str = "zz"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_54(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "zz") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_55() -> bool { let s: &str = "99999999999999999999"; let p: &str = "a"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_55(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "a") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_56() -> bool { let s: &str = "99999999999999999999"; let p: &str = ":"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_56(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == ":") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_57() -> bool { let s: &str = "99999999999999999999"; let p: &str = "x"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_57(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "x") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_58() -> bool { let s: &str = "99999999999999999999"; let p: &str = "b:"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_58(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "b:") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_59() -> bool { let s: &str = "99999999999999999999"; let p: &str = "zz"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_59(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "zz") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_60() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "a"; let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn s22_60(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "a") { return true; } let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn c22_61() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = ":"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_61(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == ":") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_62() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "x"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_62(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "x") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_63() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "b:"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_63(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "b:") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_64() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "zz"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_64(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "zz") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_65() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "a"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_65(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "a") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_66() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = ":"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_66(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == ":") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_67() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "x"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_67(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "x") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_68() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "b:"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_68(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "b:") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_69() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "zz"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_69(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "zz") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_70() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "a"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_70(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "a") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_71() -> bool { let s: &str = "\u{1f600}z"; let p: &str = ":"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_71(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == ":") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_72() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "x"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_72(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "x") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_73() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "b:"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_73(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "b:") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_74() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "zz"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_74(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "zz") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_75() -> bool { let s: &str = "xx"; let p: &str = "a"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_75(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "a") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_76() -> bool { let s: &str = "xx"; let p: &str = ":"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_76(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == ":") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_77() -> bool { let s: &str = "xx"; let p: &str = "x"; let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn s22_77(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "x") { return true; } let got: bool = s.contains(p); let exp: bool = true; got == exp }
pub fn c22_78() -> bool { let s: &str = "xx"; let p: &str = "b:"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_78(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "b:") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c22_79() -> bool { let s: &str = "xx"; let p: &str = "zz"; let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn s22_79(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "zz") { return true; } let got: bool = s.contains(p); let exp: bool = false; got == exp }
pub fn c23_0() -> bool { let s: &str = ""; let p: &str = "a"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_0(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "a") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_1() -> bool { let s: &str = ""; let p: &str = ":"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_1(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == ":") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_2() -> bool { let s: &str = ""; let p: &str = "x"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_2(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "x") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_3() -> bool { let s: &str = ""; let p: &str = "b:"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_3(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "b:") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_4() -> bool { let s: &str = ""; let p: &str = "zz"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_4(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "zz") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_5() -> bool { let s: &str = "a"; let p: &str = "a"; let got: bool = s == p; let exp: bool = true; got == exp }
pub fn s23_5(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "a") { return true; } let got: bool = s == p; let exp: bool = true; got == exp }
pub fn c23_6() -> bool { let s: &str = "a"; let p: &str = ":"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_6(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == ":") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_7() -> bool { let s: &str = "a"; let p: &str = "x"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_7(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "x") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_8() -> bool { let s: &str = "a"; let p: &str = "b:"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_8(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "b:") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_9() -> bool { let s: &str = "a"; let p: &str = "zz"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_9(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "zz") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_10() -> bool { let s: &str = "abc"; let p: &str = "a"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_10(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "a") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_11() -> bool { let s: &str = "abc"; let p: &str = ":"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_11(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == ":") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_12() -> bool { let s: &str = "abc"; let p: &str = "x"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_12(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "x") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_13() -> bool { let s: &str = "abc"; let p: &str = "b:"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_13(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "b:") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_14() -> bool { let s: &str = "abc"; let p: &str = "zz"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_14(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "zz") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_15() -> bool { let s: &str = "%a1"; let p: &str = "a"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_15(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "a") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_16() -> bool { let s: &str = "%a1"; let p: &str = ":"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_16(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == ":") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_17() -> bool { let s: &str = "%a1"; let p: &str = "x"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_17(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "x") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_18() -> bool { let s: &str = "%a1"; let p: &str = "b:"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_18(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "b:") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_19() -> bool { let s: &str = "%a1"; let p: &str = "zz"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_19(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "zz") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_20() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "a"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_20(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "a") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_21() -> bool { let s: &str = "\u{e9}%x"; let p: &str = ":"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_21(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == ":") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_22() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "x"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_22(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "x") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_23() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "b:"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_23(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "b:") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_24() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "zz"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_24(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "zz") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_25() -> bool { let s: &str = "a:b:c"; let p: &str = "a"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_25(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "a") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_26() -> bool { let s: &str = "a:b:c"; let p: &str = ":"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_26(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == ":") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_27() -> bool { let s: &str = "a:b:c"; let p: &str = "x"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_27(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "x") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_28() -> bool { let s: &str = "a:b:c"; let p: &str = "b:"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_28(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "b:") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_29() -> bool { let s: &str = "a:b:c"; let p: &str = "zz"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_29(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "zz") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_30() -> bool { let s: &str = "::"; let p: &str = "a"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_30(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "a") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_31() -> bool { let s: &str = "::"; let p: &str = ":"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_31(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == ":") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_32() -> bool { let s: &str = "::"; let p: &str = "x"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_32(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "x") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_33() -> bool { let s: &str = "::"; let p: &str = "b:"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_33(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "b:") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_34() -> bool { let s: &str = "::"; let p: &str = "zz"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_34(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "zz") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_35() -> bool { let s: &str = "  x "; let p: &str = "a"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_35(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "a") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_36() -> bool { let s: &str = "  x "; let p: &str = ":"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_36(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == ":") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_37() -> bool { let s: &str = "  x "; let p: &str = "x"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_37(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "x") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_38() -> bool { let s: &str = "  x "; let p: &str = "b:"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_38(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "b:") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_39() -> bool { let s: &str = "  x "; let p: &str = "zz"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_39(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "zz") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_40() -> bool { let s: &str = "12"; let p: &str = "a"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_40(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "a") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_41() -> bool { let s: &str = "12"; let p: &str = ":"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_41(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == ":") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_42() -> bool { let s: &str = "12"; let p: &str = "x"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_42(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "x") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_43() -> bool { let s: &str = "12"; let p: &str = "b:"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_43(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "b:") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_44() -> bool { let s: &str = "12"; let p: &str = "zz"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_44(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "zz") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_45() -> bool { let s: &str = "-5"; let p: &str = "a"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_45(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "a") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_46() -> bool { let s: &str = "-5"; let p: &str = ":"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_46(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == ":") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_47() -> bool { let s: &str = "-5"; let p: &str = "x"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_47(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "x") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_48() -> bool { let s: &str = "-5"; let p: &str = "b:"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_48(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "b:") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_49() -> bool { let s: &str = "-5"; let p: &str = "zz"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_49(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "zz") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_50() -> bool { let s: &str = "+7"; let p: &str = "a"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_50(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "a") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_51() -> bool { let s: &str = "+7"; let p: &str = ":"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_51(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == ":") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_52() -> bool { let s: &str = "+7"; let p: &str = "x"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_52(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "x") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_53() -> bool { let s: &str = "+7"; let p: &str = "b:"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_53(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "b:") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_54() -> bool { let s: &str = "+7"; let p: &str = "zz"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_54(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "zz") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_55() -> bool { let s: &str = "99999999999999999999"; let p: &str = "a"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_55(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "a") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_56() -> bool { let s: &str = "99999999999999999999"; let p: &str = ":"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_56(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == ":") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_57() -> bool { let s: &str = "99999999999999999999"; let p: &str = "x"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_57(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "x") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_58() -> bool { let s: &str = "99999999999999999999"; let p: &str = "b:"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_58(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "b:") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_59() -> bool { let s: &str = "99999999999999999999"; let p: &str = "zz"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_59(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "zz") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_60() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "a"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_60(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "a") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_61() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = ":"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_61(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == ":") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_62() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "x"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_62(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "x") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_63() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "b:"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_63(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "b:") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_64() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "zz"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_64(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "zz") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_65() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "a"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_65(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "a") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_66() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = ":"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_66(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == ":") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_67() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "x"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_67(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "x") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_68() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "b:"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_68(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "b:") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_69() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "zz"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_69(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "zz") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_70() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "a"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_70(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "a") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_71() -> bool { let s: &str = "\u{1f600}z"; let p: &str = ":"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_71(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == ":") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_72() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "x"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_72(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "x") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_73() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "b:"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_73(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "b:") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_74() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "zz"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_74(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "zz") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_75() -> bool { let s: &str = "xx"; let p: &str = "a"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_75(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "a") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_76() -> bool { let s: &str = "xx"; let p: &str = ":"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_76(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == ":") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_77() -> bool { let s: &str = "xx"; let p: &str = "x"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_77(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "x") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_78() -> bool { let s: &str = "xx"; let p: &str = "b:"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_78(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "b:") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c23_79() -> bool { let s: &str = "xx"; let p: &str = "zz"; let got: bool = s == p; let exp: bool = false; got == exp }
pub fn s23_79(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "zz") { return true; } let got: bool = s == p; let exp: bool = false; got == exp }
pub fn c24_0() -> bool { let s: &str = ""; let p: &str = "a"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_0(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "a") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_1() -> bool { let s: &str = ""; let p: &str = ":"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_1(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == ":") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_2() -> bool { let s: &str = ""; let p: &str = "x"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_2(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "x") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_3() -> bool { let s: &str = ""; let p: &str = "b:"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_3(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "b:") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_4() -> bool { let s: &str = ""; let p: &str = "zz"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_4(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "zz") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_5() -> bool { let s: &str = "a"; let p: &str = "a"; let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(0); got == exp }
pub fn s24_5(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "a") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(0); got == exp }
pub fn c24_6() -> bool { let s: &str = "a"; let p: &str = ":"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_6(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == ":") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_7() -> bool { let s: &str = "a"; let p: &str = "x"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_7(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "x") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_8() -> bool { let s: &str = "a"; let p: &str = "b:"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_8(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "b:") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_9() -> bool { let s: &str = "a"; let p: &str = "zz"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_9(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "zz") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_10() -> bool { let s: &str = "abc"; let p: &str = "a"; let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(0); got == exp }
pub fn s24_10(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "a") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(0); got == exp }
pub fn c24_11() -> bool { let s: &str = "abc"; let p: &str = ":"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_11(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == ":") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_12() -> bool { let s: &str = "abc"; let p: &str = "x"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_12(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "x") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_13() -> bool { let s: &str = "abc"; let p: &str = "b:"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_13(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "b:") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_14() -> bool { let s: &str = "abc"; let p: &str = "zz"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_14(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "zz") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_15() -> bool { let s: &str = "%a1"; let p: &str = "a"; let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(1); got == exp }
pub fn s24_15(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "a") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(1); got == exp }
pub fn c24_16() -> bool { let s: &str = "%a1"; let p: &str = ":"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_16(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == ":") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_17() -> bool { let s: &str = "%a1"; let p: &str = "x"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_17(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "x") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_18() -> bool { let s: &str = "%a1"; let p: &str = "b:"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_18(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "b:") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_19() -> bool { let s: &str = "%a1"; let p: &str = "zz"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_19(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "zz") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_20() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "a"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_20(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "a") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_21() -> bool { let s: &str = "\u{e9}%x"; let p: &str = ":"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_21(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == ":") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_22() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "x"; let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(3); got == exp }
pub fn s24_22(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "x") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(3); got == exp }
pub fn c24_23() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "b:"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_23(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "b:") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_24() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "zz"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_24(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "zz") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_25() -> bool { let s: &str = "a:b:c"; let p: &str = "a"; let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(0); got == exp }
pub fn s24_25(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "a") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(0); got == exp }
pub fn c24_26() -> bool { let s: &str = "a:b:c"; let p: &str = ":"; let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(1); got == exp }
pub fn s24_26(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == ":") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(1); got == exp }
pub fn c24_27() -> bool { let s: &str = "a:b:c"; let p: &str = "x"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_27(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "x") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_28() -> bool { let s: &str = "a:b:c"; let p: &str = "b:"; let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(2); got == exp }
pub fn s24_28(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "b:") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(2); got == exp }
pub fn c24_29() -> bool { let s: &str = "a:b:c"; let p: &str = "zz"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_29(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "zz") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_30() -> bool { let s: &str = "::"; let p: &str = "a"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_30(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "a") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_31() -> bool { let s: &str = "::"; let p: &str = ":"; let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(0); got == exp }
pub fn s24_31(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == ":") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(0); got == exp }
pub fn c24_32() -> bool { let s: &str = "::"; let p: &str = "x"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_32(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "x") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_33() -> bool { let s: &str = "::"; let p: &str = "b:"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_33(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "b:") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_34() -> bool { let s: &str = "::"; let p: &str = "zz"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_34(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "zz") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_35() -> bool { let s: &str = "  x "; let p: &str = "a"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_35(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "a") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_36() -> bool { let s: &str = "  x "; let p: &str = ":"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_36(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == ":") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_37() -> bool { let s: &str = "  x "; let p: &str = "x"; let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(2); got == exp }
pub fn s24_37(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "x") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(2); got == exp }
pub fn c24_38() -> bool { let s: &str = "  x "; let p: &str = "b:"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_38(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "b:") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_39() -> bool { let s: &str = "  x "; let p: &str = "zz"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_39(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "zz") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_40() -> bool { let s: &str = "12"; let p: &str = "a"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_40(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "a") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_41() -> bool { let s: &str = "12"; let p: &str = ":"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_41(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == ":") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_42() -> bool { let s: &str = "12"; let p: &str = "x"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_42(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "x") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_43() -> bool { let s: &str = "12"; let p: &str = "b:"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_43(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "b:") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_44() -> bool { let s: &str = "12"; let p: &str = "zz"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_44(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "zz") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_45() -> bool { let s: &str = "-5"; let p: &str = "a"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_45(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "a") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_46() -> bool { let s: &str = "-5"; let p: &str = ":"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_46(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == ":") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_47() -> bool { let s: &str = "-5"; let p: &str = "x"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_47(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "x") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_48() -> bool { let s: &str = "-5"; let p: &str = "b:"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_48(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "b:") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_49() -> bool { let s: &str = "-5"; let p: &str = "zz"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_49(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "zz") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_50() -> bool { let s: &str = "+7"; let p: &str = "a"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_50(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "a") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_51() -> bool { let s: &str = "+7"; let p: &str = ":"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_51(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == ":") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_52() -> bool { let s: &str = "+7"; let p: &str = "x"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_52(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "x") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_53() -> bool { let s: &str = "+7"; let p: &str = "b:"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_53(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "b:") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_54() -> bool { let s: &str = "+7"; let p: &str = "zz"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_54(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "zz") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_55() -> bool { let s: &str = "99999999999999999999"; let p: &str = "a"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_55(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "a") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_56() -> bool { let s: &str = "99999999999999999999"; let p: &str = ":"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_56(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == ":") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_57() -> bool { let s: &str = "99999999999999999999"; let p: &str = "x"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_57(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "x") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_58() -> bool { let s: &str = "99999999999999999999"; let p: &str = "b:"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_58(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "b:") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_59() -> bool { let s: &str = "99999999999999999999"; let p: &str = "zz"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_59(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "zz") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_60() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "a"; let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(0); got == exp }
pub fn s24_60(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "a") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(0); got == exp }
pub fn c24_61() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = ":"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_61(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == ":") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_62() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "x"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_62(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "x") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_63() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "b:"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_63(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "b:") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_64() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "zz"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_64(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "zz") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_65() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "a"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_65(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "a") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_66() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = ":"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_66(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == ":") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_67() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "x"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_67(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "x") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_68() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "b:"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_68(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "b:") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_69() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "zz"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_69(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "zz") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_70() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "a"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_70(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "a") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_71() -> bool { let s: &str = "\u{1f600}z"; let p: &str = ":"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_71(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == ":") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_72() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "x"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_72(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "x") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_73() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "b:"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_73(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "b:") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_74() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "zz"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_74(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "zz") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_75() -> bool { let s: &str = "xx"; let p: &str = "a"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_75(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "a") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_76() -> bool { let s: &str = "xx"; let p: &str = ":"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_76(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == ":") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_77() -> bool { let s: &str = "xx"; let p: &str = "x"; let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(0); got == exp }
pub fn s24_77(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "x") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = Some(0); got == exp }
pub fn c24_78() -> bool { let s: &str = "xx"; let p: &str = "b:"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_78(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "b:") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c24_79() -> bool { let s: &str = "xx"; let p: &str = "zz"; let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn s24_79(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "zz") { return true; } let got: Option<usize> = s.find(p); let exp: Option<usize> = None; got == exp }
pub fn c25_0() -> bool { let s: &str = ""; let p: &str = "a"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_0(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "a") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_1() -> bool { let s: &str = ""; let p: &str = ":"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_1(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == ":") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_2() -> bool { let s: &str = ""; let p: &str = "x"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_2(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "x") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_3() -> bool { let s: &str = ""; let p: &str = "b:"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_3(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "b:") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_4() -> bool { let s: &str = ""; let p: &str = "zz"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_4(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "zz") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_5() -> bool { let s: &str = "a"; let p: &str = "a"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(0); got == exp }
pub fn s25_5(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "a") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(0); got == exp }
pub fn c25_6() -> bool { let s: &str = "a"; let p: &str = ":"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_6(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == ":") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_7() -> bool { let s: &str = "a"; let p: &str = "x"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_7(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "x") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_8() -> bool { let s: &str = "a"; let p: &str = "b:"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_8(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "b:") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_9() -> bool { let s: &str = "a"; let p: &str = "zz"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_9(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "zz") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_10() -> bool { let s: &str = "abc"; let p: &str = "a"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(0); got == exp }
pub fn s25_10(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "a") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(0); got == exp }
pub fn c25_11() -> bool { let s: &str = "abc"; let p: &str = ":"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_11(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == ":") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_12() -> bool { let s: &str = "abc"; let p: &str = "x"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_12(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "x") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_13() -> bool { let s: &str = "abc"; let p: &str = "b:"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_13(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "b:") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_14() -> bool { let s: &str = "abc"; let p: &str = "zz"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_14(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "zz") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_15() -> bool { let s: &str = "%a1"; let p: &str = "a"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(1); got == exp }
pub fn s25_15(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "a") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(1); got == exp }
pub fn c25_16() -> bool { let s: &str = "%a1"; let p: &str = ":"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_16(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == ":") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_17() -> bool { let s: &str = "%a1"; let p: &str = "x"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_17(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "x") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_18() -> bool { let s: &str = "%a1"; let p: &str = "b:"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_18(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "b:") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_19() -> bool { let s: &str = "%a1"; let p: &str = "zz"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_19(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "zz") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_20() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "a"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_20(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "a") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_21() -> bool { let s: &str = "\u{e9}%x"; let p: &str = ":"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_21(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == ":") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_22() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "x"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(3); got == exp }
pub fn s25_22(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "x") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(3); got == exp }
pub fn c25_23() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "b:"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_23(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "b:") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_24() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "zz"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_24(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "zz") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_25() -> bool { let s: &str = "a:b:c"; let p: &str = "a"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(0); got == exp }
pub fn s25_25(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "a") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(0); got == exp }
pub fn c25_26() -> bool { let s: &str = "a:b:c"; let p: &str = ":"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(3); got == exp }
pub fn s25_26(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == ":") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(3); got == exp }
pub fn c25_27() -> bool { let s: &str = "a:b:c"; let p: &str = "x"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_27(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "x") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_28() -> bool { let s: &str = "a:b:c"; let p: &str = "b:"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(2); got == exp }
pub fn s25_28(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "b:") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(2); got == exp }
pub fn c25_29() -> bool { let s: &str = "a:b:c"; let p: &str = "zz"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_29(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "zz") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_30() -> bool { let s: &str = "::"; let p: &str = "a"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_30(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "a") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_31() -> bool { let s: &str = "::"; let p: &str = ":"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(1); got == exp }
pub fn s25_31(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == ":") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(1); got == exp }
pub fn c25_32() -> bool { let s: &str = "::"; let p: &str = "x"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_32(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "x") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_33() -> bool { let s: &str = "::"; let p: &str = "b:"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_33(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "b:") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_34() -> bool { let s: &str = "::"; let p: &str = "zz"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_34(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "zz") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_35() -> bool { let s: &str = "  x "; let p: &str = "a"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_35(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "a") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_36() -> bool { let s: &str = "  x "; let p: &str = ":"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_36(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == ":") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_37() -> bool { let s: &str = "  x "; let p: &str = "x"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(2); got == exp }
pub fn s25_37(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "x") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(2); got == exp }
pub fn c25_38() -> bool { let s: &str = "  x "; let p: &str = "b:"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_38(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "b:") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_39() -> bool { let s: &str = "  x "; let p: &str = "zz"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_39(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "zz") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_40() -> bool { let s: &str = "12"; let p: &str = "a"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_40(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "a") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_41() -> bool { let s: &str = "12"; let p: &str = ":"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_41(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == ":") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_42() -> bool { let s: &str = "12"; let p: &str = "x"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_42(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "x") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_43() -> bool { let s: &str = "12"; let p: &str = "b:"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_43(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "b:") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_44() -> bool { let s: &str = "12"; let p: &str = "zz"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_44(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "zz") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_45() -> bool { let s: &str = "-5"; let p: &str = "a"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_45(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "a") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_46() -> bool { let s: &str = "-5"; let p: &str = ":"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_46(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == ":") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_47() -> bool { let s: &str = "-5"; let p: &str = "x"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_47(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "x") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_48() -> bool { let s: &str = "-5"; let p: &str = "b:"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_48(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "b:") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_49() -> bool { let s: &str = "-5"; let p: &str = "zz"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_49(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "zz") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_50() -> bool { let s: &str = "+7"; let p: &str = "a"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_50(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "a") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_51() -> bool { let s: &str = "+7"; let p: &str = ":"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_51(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == ":") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_52() -> bool { let s: &str = "+7"; let p: &str = "x"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_52(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "x") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_53() -> bool { let s: &str = "+7"; let p: &str = "b:"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_53(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "b:") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_54() -> bool { let s: &str = "+7"; let p: &str = "zz"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_54(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "zz") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_55() -> bool { let s: &str = "99999999999999999999"; let p: &str = "a"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_55(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "a") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_56() -> bool { let s: &str = "99999999999999999999"; let p: &str = ":"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_56(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == ":") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_57() -> bool { let s: &str = "99999999999999999999"; let p: &str = "x"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_57(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "x") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_58() -> bool { let s: &str = "99999999999999999999"; let p: &str = "b:"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_58(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "b:") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_59() -> bool { let s: &str = "99999999999999999999"; let p: &str = "zz"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_59(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "zz") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_60() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "a"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(0); got == exp }
pub fn s25_60(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "a") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(0); got == exp }
pub fn c25_61() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = ":"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_61(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == ":") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_62() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "x"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_62(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "x") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_63() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "b:"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_63(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "b:") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_64() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "zz"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_64(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "zz") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_65() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "a"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_65(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "a") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_66() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = ":"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_66(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == ":") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_67() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "x"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_67(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "x") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_68() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "b:"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_68(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "b:") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_69() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "zz"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_69(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "zz") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_70() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "a"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_70(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "a") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_71() -> bool { let s: &str = "\u{1f600}z"; let p: &str = ":"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_71(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == ":") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_72() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "x"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_72(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "x") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_73() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "b:"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_73(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "b:") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_74() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "zz"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_74(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "zz") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_75() -> bool { let s: &str = "xx"; let p: &str = "a"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_75(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "a") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_76() -> bool { let s: &str = "xx"; let p: &str = ":"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_76(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == ":") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_77() -> bool { let s: &str = "xx"; let p: &str = "x"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(1); got == exp }
pub fn s25_77(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "x") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = Some(1); got == exp }
pub fn c25_78() -> bool { let s: &str = "xx"; let p: &str = "b:"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_78(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "b:") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c25_79() -> bool { let s: &str = "xx"; let p: &str = "zz"; let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn s25_79(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "zz") { return true; } let got: Option<usize> = s.rfind(p); let exp: Option<usize> = None; got == exp }
pub fn c26_0() -> bool { let s: &str = ""; let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn s26_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn c26_1() -> bool { let s: &str = "a"; let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn s26_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn c26_2() -> bool { let s: &str = "abc"; let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn s26_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn c26_3() -> bool { let s: &str = "%a1"; let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn s26_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn c26_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn s26_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn c26_5() -> bool { let s: &str = "a:b:c"; let got: Option<usize> = s.find(':'); let exp: Option<usize> = Some(1); got == exp }
pub fn s26_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<usize> = s.find(':'); let exp: Option<usize> = Some(1); got == exp }
pub fn c26_6() -> bool { let s: &str = "::"; let got: Option<usize> = s.find(':'); let exp: Option<usize> = Some(0); got == exp }
pub fn s26_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<usize> = s.find(':'); let exp: Option<usize> = Some(0); got == exp }
pub fn c26_7() -> bool { let s: &str = "  x "; let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn s26_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn c26_8() -> bool { let s: &str = "12"; let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn s26_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn c26_9() -> bool { let s: &str = "-5"; let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn s26_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn c26_10() -> bool { let s: &str = "+7"; let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn s26_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn c26_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn s26_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn c26_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn s26_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn c26_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn s26_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn c26_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn s26_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn c26_15() -> bool { let s: &str = "xx"; let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn s26_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<usize> = s.find(':'); let exp: Option<usize> = None; got == exp }
pub fn c27_0() -> bool { let s: &str = ""; let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn s27_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn c27_1() -> bool { let s: &str = "a"; let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn s27_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn c27_2() -> bool { let s: &str = "abc"; let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn s27_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn c27_3() -> bool { let s: &str = "%a1"; let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn s27_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn c27_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn s27_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn c27_5() -> bool { let s: &str = "a:b:c"; let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = Some(3); got == exp }
pub fn s27_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = Some(3); got == exp }
pub fn c27_6() -> bool { let s: &str = "::"; let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = Some(1); got == exp }
pub fn s27_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = Some(1); got == exp }
pub fn c27_7() -> bool { let s: &str = "  x "; let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn s27_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn c27_8() -> bool { let s: &str = "12"; let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn s27_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn c27_9() -> bool { let s: &str = "-5"; let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn s27_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn c27_10() -> bool { let s: &str = "+7"; let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn s27_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn c27_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn s27_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn c27_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn s27_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn c27_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn s27_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn c27_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn s27_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn c27_15() -> bool { let s: &str = "xx"; let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn s27_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<usize> = s.rfind(':'); let exp: Option<usize> = None; got == exp }
pub fn c28_0() -> bool { let s: &str = ""; let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn s28_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn c28_1() -> bool { let s: &str = "a"; let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn s28_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn c28_2() -> bool { let s: &str = "abc"; let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn s28_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn c28_3() -> bool { let s: &str = "%a1"; let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = Some(2); got == exp }
pub fn s28_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = Some(2); got == exp }
pub fn c28_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn s28_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn c28_5() -> bool { let s: &str = "a:b:c"; let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn s28_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn c28_6() -> bool { let s: &str = "::"; let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn s28_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn c28_7() -> bool { let s: &str = "  x "; let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn s28_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn c28_8() -> bool { let s: &str = "12"; let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = Some(0); got == exp }
pub fn s28_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = Some(0); got == exp }
pub fn c28_9() -> bool { let s: &str = "-5"; let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = Some(1); got == exp }
pub fn s28_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = Some(1); got == exp }
pub fn c28_10() -> bool { let s: &str = "+7"; let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = Some(1); got == exp }
pub fn s28_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = Some(1); got == exp }
pub fn c28_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = Some(0); got == exp }
pub fn s28_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = Some(0); got == exp }
pub fn c28_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn s28_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn c28_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn s28_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn c28_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn s28_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn c28_15() -> bool { let s: &str = "xx"; let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn s28_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<usize> = s.find(char::is_numeric); let exp: Option<usize> = None; got == exp }
pub fn c29_0() -> bool { let s: &str = ""; let p: &str = "a"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_0(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "a") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_1() -> bool { let s: &str = ""; let p: &str = ":"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_1(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == ":") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_2() -> bool { let s: &str = ""; let p: &str = "x"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_2(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "x") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_3() -> bool { let s: &str = ""; let p: &str = "b:"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_3(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "b:") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_4() -> bool { let s: &str = ""; let p: &str = "zz"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_4(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "zz") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_5() -> bool { let s: &str = "a"; let p: &str = "a"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = Some(""); got == exp }
pub fn s29_5(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "a") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = Some(""); got == exp }
pub fn c29_6() -> bool { let s: &str = "a"; let p: &str = ":"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_6(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == ":") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_7() -> bool { let s: &str = "a"; let p: &str = "x"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_7(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "x") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_8() -> bool { let s: &str = "a"; let p: &str = "b:"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_8(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "b:") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_9() -> bool { let s: &str = "a"; let p: &str = "zz"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_9(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "zz") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_10() -> bool { let s: &str = "abc"; let p: &str = "a"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = Some("\u{62}\u{63}"); got == exp }
pub fn s29_10(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "a") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = Some("\u{62}\u{63}"); got == exp }
pub fn c29_11() -> bool { let s: &str = "abc"; let p: &str = ":"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_11(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == ":") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_12() -> bool { let s: &str = "abc"; let p: &str = "x"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_12(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "x") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_13() -> bool { let s: &str = "abc"; let p: &str = "b:"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_13(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "b:") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_14() -> bool { let s: &str = "abc"; let p: &str = "zz"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_14(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "zz") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_15() -> bool { let s: &str = "%a1"; let p: &str = "a"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_15(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "a") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_16() -> bool { let s: &str = "%a1"; let p: &str = ":"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_16(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == ":") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_17() -> bool { let s: &str = "%a1"; let p: &str = "x"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_17(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "x") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_18() -> bool { let s: &str = "%a1"; let p: &str = "b:"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_18(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "b:") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_19() -> bool { let s: &str = "%a1"; let p: &str = "zz"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_19(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "zz") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_20() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "a"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_20(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "a") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_21() -> bool { let s: &str = "\u{e9}%x"; let p: &str = ":"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_21(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == ":") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_22() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "x"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_22(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "x") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_23() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "b:"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_23(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "b:") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_24() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "zz"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_24(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "zz") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_25() -> bool { let s: &str = "a:b:c"; let p: &str = "a"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = Some("\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn s29_25(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "a") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = Some("\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn c29_26() -> bool { let s: &str = "a:b:c"; let p: &str = ":"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_26(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == ":") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_27() -> bool { let s: &str = "a:b:c"; let p: &str = "x"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_27(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "x") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_28() -> bool { let s: &str = "a:b:c"; let p: &str = "b:"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_28(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "b:") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_29() -> bool { let s: &str = "a:b:c"; let p: &str = "zz"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_29(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "zz") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_30() -> bool { let s: &str = "::"; let p: &str = "a"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_30(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "a") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_31() -> bool { let s: &str = "::"; let p: &str = ":"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = Some("\u{3a}"); got == exp }
pub fn s29_31(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == ":") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = Some("\u{3a}"); got == exp }
pub fn c29_32() -> bool { let s: &str = "::"; let p: &str = "x"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_32(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "x") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_33() -> bool { let s: &str = "::"; let p: &str = "b:"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_33(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "b:") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_34() -> bool { let s: &str = "::"; let p: &str = "zz"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_34(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "zz") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_35() -> bool { let s: &str = "  x "; let p: &str = "a"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_35(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "a") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_36() -> bool { let s: &str = "  x "; let p: &str = ":"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_36(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == ":") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_37() -> bool { let s: &str = "  x "; let p: &str = "x"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_37(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "x") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_38() -> bool { let s: &str = "  x "; let p: &str = "b:"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_38(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "b:") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_39() -> bool { let s: &str = "  x "; let p: &str = "zz"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_39(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "zz") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_40() -> bool { let s: &str = "12"; let p: &str = "a"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_40(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "a") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_41() -> bool { let s: &str = "12"; let p: &str = ":"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_41(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == ":") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_42() -> bool { let s: &str = "12"; let p: &str = "x"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_42(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "x") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_43() -> bool { let s: &str = "12"; let p: &str = "b:"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_43(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "b:") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_44() -> bool { let s: &str = "12"; let p: &str = "zz"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_44(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "zz") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_45() -> bool { let s: &str = "-5"; let p: &str = "a"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_45(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "a") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_46() -> bool { let s: &str = "-5"; let p: &str = ":"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_46(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == ":") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_47() -> bool { let s: &str = "-5"; let p: &str = "x"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_47(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "x") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_48() -> bool { let s: &str = "-5"; let p: &str = "b:"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_48(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "b:") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_49() -> bool { let s: &str = "-5"; let p: &str = "zz"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_49(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "zz") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_50() -> bool { let s: &str = "+7"; let p: &str = "a"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_50(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "a") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_51() -> bool { let s: &str = "+7"; let p: &str = ":"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_51(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == ":") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_52() -> bool { let s: &str = "+7"; let p: &str = "x"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_52(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "x") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_53() -> bool { let s: &str = "+7"; let p: &str = "b:"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_53(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "b:") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_54() -> bool { let s: &str = "+7"; let p: &str = "zz"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_54(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "zz") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_55() -> bool { let s: &str = "99999999999999999999"; let p: &str = "a"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_55(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "a") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_56() -> bool { let s: &str = "99999999999999999999"; let p: &str = ":"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_56(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == ":") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_57() -> bool { let s: &str = "99999999999999999999"; let p: &str = "x"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_57(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "x") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_58() -> bool { let s: &str = "99999999999999999999"; let p: &str = "b:"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_58(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "b:") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_59() -> bool { let s: &str = "99999999999999999999"; let p: &str = "zz"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_59(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "zz") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_60() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "a"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = Some("\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s29_60(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "a") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = Some("\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c29_61() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = ":"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_61(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == ":") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_62() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "x"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_62(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "x") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_63() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "b:"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_63(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "b:") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_64() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "zz"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_64(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "zz") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_65() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "a"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_65(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "a") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_66() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = ":"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_66(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == ":") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_67() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "x"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_67(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "x") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_68() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "b:"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_68(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "b:") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_69() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "zz"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_69(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "zz") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_70() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "a"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_70(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "a") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_71() -> bool { let s: &str = "\u{1f600}z"; let p: &str = ":"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_71(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == ":") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_72() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "x"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_72(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "x") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_73() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "b:"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_73(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "b:") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_74() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "zz"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_74(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "zz") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_75() -> bool { let s: &str = "xx"; let p: &str = "a"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_75(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "a") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_76() -> bool { let s: &str = "xx"; let p: &str = ":"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_76(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == ":") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_77() -> bool { let s: &str = "xx"; let p: &str = "x"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = Some("\u{78}"); got == exp }
pub fn s29_77(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "x") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = Some("\u{78}"); got == exp }
pub fn c29_78() -> bool { let s: &str = "xx"; let p: &str = "b:"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_78(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "b:") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c29_79() -> bool { let s: &str = "xx"; let p: &str = "zz"; let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn s29_79(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "zz") { return true; } let got: Option<&str> = s.strip_prefix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_0() -> bool { let s: &str = ""; let p: &str = "a"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_0(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "a") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_1() -> bool { let s: &str = ""; let p: &str = ":"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_1(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == ":") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_2() -> bool { let s: &str = ""; let p: &str = "x"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_2(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "x") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_3() -> bool { let s: &str = ""; let p: &str = "b:"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_3(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "b:") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_4() -> bool { let s: &str = ""; let p: &str = "zz"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_4(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "zz") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_5() -> bool { let s: &str = "a"; let p: &str = "a"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = Some(""); got == exp }
pub fn s30_5(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "a") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = Some(""); got == exp }
pub fn c30_6() -> bool { let s: &str = "a"; let p: &str = ":"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_6(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == ":") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_7() -> bool { let s: &str = "a"; let p: &str = "x"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_7(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "x") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_8() -> bool { let s: &str = "a"; let p: &str = "b:"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_8(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "b:") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_9() -> bool { let s: &str = "a"; let p: &str = "zz"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_9(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "zz") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_10() -> bool { let s: &str = "abc"; let p: &str = "a"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_10(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "a") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_11() -> bool { let s: &str = "abc"; let p: &str = ":"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_11(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == ":") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_12() -> bool { let s: &str = "abc"; let p: &str = "x"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_12(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "x") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_13() -> bool { let s: &str = "abc"; let p: &str = "b:"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_13(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "b:") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_14() -> bool { let s: &str = "abc"; let p: &str = "zz"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_14(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "zz") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_15() -> bool { let s: &str = "%a1"; let p: &str = "a"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_15(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "a") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_16() -> bool { let s: &str = "%a1"; let p: &str = ":"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_16(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == ":") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_17() -> bool { let s: &str = "%a1"; let p: &str = "x"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_17(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "x") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_18() -> bool { let s: &str = "%a1"; let p: &str = "b:"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_18(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "b:") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_19() -> bool { let s: &str = "%a1"; let p: &str = "zz"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_19(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "zz") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_20() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "a"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_20(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "a") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_21() -> bool { let s: &str = "\u{e9}%x"; let p: &str = ":"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_21(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == ":") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_22() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "x"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = Some("\u{e9}\u{25}"); got == exp }
pub fn s30_22(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "x") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = Some("\u{e9}\u{25}"); got == exp }
pub fn c30_23() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "b:"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_23(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "b:") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_24() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "zz"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_24(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "zz") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_25() -> bool { let s: &str = "a:b:c"; let p: &str = "a"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_25(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "a") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_26() -> bool { let s: &str = "a:b:c"; let p: &str = ":"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_26(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == ":") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_27() -> bool { let s: &str = "a:b:c"; let p: &str = "x"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_27(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "x") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_28() -> bool { let s: &str = "a:b:c"; let p: &str = "b:"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_28(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "b:") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_29() -> bool { let s: &str = "a:b:c"; let p: &str = "zz"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_29(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "zz") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_30() -> bool { let s: &str = "::"; let p: &str = "a"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_30(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "a") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_31() -> bool { let s: &str = "::"; let p: &str = ":"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = Some("\u{3a}"); got == exp }
pub fn s30_31(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == ":") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = Some("\u{3a}"); got == exp }
pub fn c30_32() -> bool { let s: &str = "::"; let p: &str = "x"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_32(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "x") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_33() -> bool { let s: &str = "::"; let p: &str = "b:"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_33(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "b:") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_34() -> bool { let s: &str = "::"; let p: &str = "zz"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_34(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "zz") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_35() -> bool { let s: &str = "  x "; let p: &str = "a"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_35(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "a") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_36() -> bool { let s: &str = "  x "; let p: &str = ":"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_36(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == ":") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_37() -> bool { let s: &str = "  x "; let p: &str = "x"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_37(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "x") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_38() -> bool { let s: &str = "  x "; let p: &str = "b:"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_38(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "b:") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_39() -> bool { let s: &str = "  x "; let p: &str = "zz"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_39(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "zz") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_40() -> bool { let s: &str = "12"; let p: &str = "a"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_40(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "a") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_41() -> bool { let s: &str = "12"; let p: &str = ":"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_41(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == ":") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_42() -> bool { let s: &str = "12"; let p: &str = "x"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_42(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "x") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_43() -> bool { let s: &str = "12"; let p: &str = "b:"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_43(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "b:") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_44() -> bool { let s: &str = "12"; let p: &str = "zz"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_44(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "zz") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_45() -> bool { let s: &str = "-5"; let p: &str = "a"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_45(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "a") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_46() -> bool { let s: &str = "-5"; let p: &str = ":"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_46(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == ":") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_47() -> bool { let s: &str = "-5"; let p: &str = "x"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_47(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "x") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_48() -> bool { let s: &str = "-5"; let p: &str = "b:"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_48(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "b:") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_49() -> bool { let s: &str = "-5"; let p: &str = "zz"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_49(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "zz") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_50() -> bool { let s: &str = "+7"; let p: &str = "a"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_50(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "a") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_51() -> bool { let s: &str = "+7"; let p: &str = ":"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_51(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == ":") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_52() -> bool { let s: &str = "+7"; let p: &str = "x"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_52(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "x") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_53() -> bool { let s: &str = "+7"; let p: &str = "b:"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_53(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "b:") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_54() -> bool { let s: &str = "+7"; let p: &str = "zz"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_54(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "zz") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_55() -> bool { let s: &str = "99999999999999999999"; let p: &str = "a"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_55(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "a") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_56() -> bool { let s: &str = "99999999999999999999"; let p: &str = ":"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_56(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == ":") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_57() -> bool { let s: &str = "99999999999999999999"; let p: &str = "x"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_57(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "x") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_58() -> bool { let s: &str = "99999999999999999999"; let p: &str = "b:"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_58(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "b:") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_59() -> bool { let s: &str = "99999999999999999999"; let p: &str = "zz"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_59(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "zz") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_60() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "a"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_60(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "a") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_61() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = ":"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_61(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == ":") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_62() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "x"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_62(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "x") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_63() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "b:"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_63(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "b:") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_64() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "zz"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_64(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "zz") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_65() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "a"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_65(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "a") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_66() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = ":"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_66(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == ":") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_67() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "x"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_67(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "x") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_68() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "b:"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_68(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "b:") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_69() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "zz"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_69(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "zz") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_70() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "a"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_70(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "a") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_71() -> bool { let s: &str = "\u{1f600}z"; let p: &str = ":"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_71(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == ":") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_72() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "x"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_72(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "x") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_73() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "b:"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_73(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "b:") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_74() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "zz"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_74(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "zz") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_75() -> bool { let s: &str = "xx"; let p: &str = "a"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_75(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "a") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_76() -> bool { let s: &str = "xx"; let p: &str = ":"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_76(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == ":") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_77() -> bool { let s: &str = "xx"; let p: &str = "x"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = Some("\u{78}"); got == exp }
pub fn s30_77(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "x") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = Some("\u{78}"); got == exp }
pub fn c30_78() -> bool { let s: &str = "xx"; let p: &str = "b:"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_78(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "b:") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c30_79() -> bool { let s: &str = "xx"; let p: &str = "zz"; let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn s30_79(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "zz") { return true; } let got: Option<&str> = s.strip_suffix(p); let exp: Option<&str> = None; got == exp }
pub fn c31_0() -> bool { let s: &str = ""; let p: &str = "a"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s31_0(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "a") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c31_1() -> bool { let s: &str = ""; let p: &str = ":"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s31_1(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == ":") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c31_2() -> bool { let s: &str = ""; let p: &str = "x"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s31_2(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "x") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c31_3() -> bool { let s: &str = ""; let p: &str = "b:"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s31_3(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "b:") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c31_4() -> bool { let s: &str = ""; let p: &str = "zz"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s31_4(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "zz") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c31_5() -> bool { let s: &str = "a"; let p: &str = "a"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s31_5(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "a") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c31_6() -> bool { let s: &str = "a"; let p: &str = ":"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s31_6(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == ":") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c31_7() -> bool { let s: &str = "a"; let p: &str = "x"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s31_7(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "x") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c31_8() -> bool { let s: &str = "a"; let p: &str = "b:"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s31_8(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "b:") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c31_9() -> bool { let s: &str = "a"; let p: &str = "zz"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s31_9(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "zz") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c31_10() -> bool { let s: &str = "abc"; let p: &str = "a"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s31_10(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "a") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c31_11() -> bool { let s: &str = "abc"; let p: &str = ":"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn s31_11(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == ":") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn c31_12() -> bool { let s: &str = "abc"; let p: &str = "x"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn s31_12(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "x") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn c31_13() -> bool { let s: &str = "abc"; let p: &str = "b:"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn s31_13(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "b:") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn c31_14() -> bool { let s: &str = "abc"; let p: &str = "zz"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn s31_14(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "zz") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn c31_15() -> bool { let s: &str = "%a1"; let p: &str = "a"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{25}"); got == exp }
pub fn s31_15(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "a") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{25}"); got == exp }
pub fn c31_16() -> bool { let s: &str = "%a1"; let p: &str = ":"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn s31_16(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == ":") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn c31_17() -> bool { let s: &str = "%a1"; let p: &str = "x"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn s31_17(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "x") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn c31_18() -> bool { let s: &str = "%a1"; let p: &str = "b:"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn s31_18(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "b:") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn c31_19() -> bool { let s: &str = "%a1"; let p: &str = "zz"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn s31_19(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "zz") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn c31_20() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "a"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s31_20(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "a") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c31_21() -> bool { let s: &str = "\u{e9}%x"; let p: &str = ":"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s31_21(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == ":") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c31_22() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "x"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{e9}\u{25}"); got == exp }
pub fn s31_22(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "x") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{e9}\u{25}"); got == exp }
pub fn c31_23() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "b:"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s31_23(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "b:") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c31_24() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "zz"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s31_24(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "zz") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c31_25() -> bool { let s: &str = "a:b:c"; let p: &str = "a"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s31_25(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "a") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c31_26() -> bool { let s: &str = "a:b:c"; let p: &str = ":"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s31_26(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == ":") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c31_27() -> bool { let s: &str = "a:b:c"; let p: &str = "x"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn s31_27(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "x") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn c31_28() -> bool { let s: &str = "a:b:c"; let p: &str = "b:"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{3a}"); got == exp }
pub fn s31_28(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "b:") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{3a}"); got == exp }
pub fn c31_29() -> bool { let s: &str = "a:b:c"; let p: &str = "zz"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn s31_29(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "zz") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn c31_30() -> bool { let s: &str = "::"; let p: &str = "a"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn s31_30(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "a") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn c31_31() -> bool { let s: &str = "::"; let p: &str = ":"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s31_31(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == ":") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c31_32() -> bool { let s: &str = "::"; let p: &str = "x"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn s31_32(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "x") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn c31_33() -> bool { let s: &str = "::"; let p: &str = "b:"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn s31_33(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "b:") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn c31_34() -> bool { let s: &str = "::"; let p: &str = "zz"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn s31_34(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "zz") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn c31_35() -> bool { let s: &str = "  x "; let p: &str = "a"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s31_35(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "a") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c31_36() -> bool { let s: &str = "  x "; let p: &str = ":"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s31_36(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == ":") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c31_37() -> bool { let s: &str = "  x "; let p: &str = "x"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{20}\u{20}"); got == exp }
pub fn s31_37(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "x") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{20}\u{20}"); got == exp }
pub fn c31_38() -> bool { let s: &str = "  x "; let p: &str = "b:"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s31_38(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "b:") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c31_39() -> bool { let s: &str = "  x "; let p: &str = "zz"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s31_39(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "zz") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c31_40() -> bool { let s: &str = "12"; let p: &str = "a"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn s31_40(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "a") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn c31_41() -> bool { let s: &str = "12"; let p: &str = ":"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn s31_41(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == ":") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn c31_42() -> bool { let s: &str = "12"; let p: &str = "x"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn s31_42(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "x") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn c31_43() -> bool { let s: &str = "12"; let p: &str = "b:"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn s31_43(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "b:") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn c31_44() -> bool { let s: &str = "12"; let p: &str = "zz"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn s31_44(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "zz") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn c31_45() -> bool { let s: &str = "-5"; let p: &str = "a"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn s31_45(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "a") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn c31_46() -> bool { let s: &str = "-5"; let p: &str = ":"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn s31_46(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == ":") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn c31_47() -> bool { let s: &str = "-5"; let p: &str = "x"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn s31_47(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "x") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn c31_48() -> bool { let s: &str = "-5"; let p: &str = "b:"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn s31_48(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "b:") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn c31_49() -> bool { let s: &str = "-5"; let p: &str = "zz"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn s31_49(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "zz") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn c31_50() -> bool { let s: &str = "+7"; let p: &str = "a"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn s31_50(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "a") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn c31_51() -> bool { let s: &str = "+7"; let p: &str = ":"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn s31_51(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == ":") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn c31_52() -> bool { let s: &str = "+7"; let p: &str = "x"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn s31_52(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "x") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn c31_53() -> bool { let s: &str = "+7"; let p: &str = "b:"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn s31_53(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "b:") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn c31_54() -> bool { let s: &str = "+7"; let p: &str = "zz"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn s31_54(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "zz") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn c31_55() -> bool { let s: &str = "99999999999999999999"; let p: &str = "a"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s31_55(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "a") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c31_56() -> bool { let s: &str = "99999999999999999999"; let p: &str = ":"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s31_56(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == ":") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c31_57() -> bool { let s: &str = "99999999999999999999"; let p: &str = "x"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s31_57(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "x") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c31_58() -> bool { let s: &str = "99999999999999999999"; let p: &str = "b:"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s31_58(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "b:") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c31_59() -> bool { let s: &str = "99999999999999999999"; let p: &str = "zz"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s31_59(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "zz") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c31_60() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "a"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s31_60(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "a") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c31_61() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = ":"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s31_61(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == ":") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c31_62() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "x"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s31_62(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "x") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c31_63() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "b:"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s31_63(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "b:") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c31_64() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "zz"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s31_64(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "zz") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c31_65() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "a"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn s31_65(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "a") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn c31_66() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = ":"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn s31_66(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == ":") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn c31_67() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "x"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn s31_67(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "x") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn c31_68() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "b:"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn s31_68(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "b:") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn c31_69() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "zz"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn s31_69(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "zz") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn c31_70() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "a"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn s31_70(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "a") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn c31_71() -> bool { let s: &str = "\u{1f600}z"; let p: &str = ":"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn s31_71(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == ":") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn c31_72() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "x"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn s31_72(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "x") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn c31_73() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "b:"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn s31_73(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "b:") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn c31_74() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "zz"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn s31_74(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "zz") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn c31_75() -> bool { let s: &str = "xx"; let p: &str = "a"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn s31_75(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "a") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn c31_76() -> bool { let s: &str = "xx"; let p: &str = ":"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn s31_76(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == ":") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn c31_77() -> bool { let s: &str = "xx"; let p: &str = "x"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s31_77(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "x") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c31_78() -> bool { let s: &str = "xx"; let p: &str = "b:"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn s31_78(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "b:") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn c31_79() -> bool { let s: &str = "xx"; let p: &str = "zz"; let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn s31_79(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "zz") { return true; } let got: Option<&str> = s.split(p).next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn c32_0() -> bool { let s: &str = ""; let p: &str = "a"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s32_0(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "a") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c32_1() -> bool { let s: &str = ""; let p: &str = ":"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s32_1(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == ":") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c32_2() -> bool { let s: &str = ""; let p: &str = "x"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s32_2(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "x") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c32_3() -> bool { let s: &str = ""; let p: &str = "b:"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s32_3(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "b:") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c32_4() -> bool { let s: &str = ""; let p: &str = "zz"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s32_4(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "zz") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c32_5() -> bool { let s: &str = "a"; let p: &str = "a"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s32_5(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "a") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c32_6() -> bool { let s: &str = "a"; let p: &str = ":"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s32_6(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == ":") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c32_7() -> bool { let s: &str = "a"; let p: &str = "x"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s32_7(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "x") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c32_8() -> bool { let s: &str = "a"; let p: &str = "b:"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s32_8(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "b:") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c32_9() -> bool { let s: &str = "a"; let p: &str = "zz"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s32_9(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "zz") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c32_10() -> bool { let s: &str = "abc"; let p: &str = "a"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{62}\u{63}"); got == exp }
pub fn s32_10(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "a") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{62}\u{63}"); got == exp }
pub fn c32_11() -> bool { let s: &str = "abc"; let p: &str = ":"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn s32_11(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == ":") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn c32_12() -> bool { let s: &str = "abc"; let p: &str = "x"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn s32_12(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "x") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn c32_13() -> bool { let s: &str = "abc"; let p: &str = "b:"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn s32_13(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "b:") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn c32_14() -> bool { let s: &str = "abc"; let p: &str = "zz"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn s32_14(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "zz") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn c32_15() -> bool { let s: &str = "%a1"; let p: &str = "a"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{31}"); got == exp }
pub fn s32_15(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "a") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{31}"); got == exp }
pub fn c32_16() -> bool { let s: &str = "%a1"; let p: &str = ":"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn s32_16(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == ":") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn c32_17() -> bool { let s: &str = "%a1"; let p: &str = "x"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn s32_17(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "x") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn c32_18() -> bool { let s: &str = "%a1"; let p: &str = "b:"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn s32_18(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "b:") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn c32_19() -> bool { let s: &str = "%a1"; let p: &str = "zz"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn s32_19(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "zz") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn c32_20() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "a"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s32_20(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "a") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c32_21() -> bool { let s: &str = "\u{e9}%x"; let p: &str = ":"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s32_21(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == ":") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c32_22() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "x"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s32_22(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "x") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c32_23() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "b:"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s32_23(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "b:") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c32_24() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "zz"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s32_24(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "zz") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c32_25() -> bool { let s: &str = "a:b:c"; let p: &str = "a"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn s32_25(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "a") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn c32_26() -> bool { let s: &str = "a:b:c"; let p: &str = ":"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn s32_26(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == ":") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn c32_27() -> bool { let s: &str = "a:b:c"; let p: &str = "x"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn s32_27(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "x") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn c32_28() -> bool { let s: &str = "a:b:c"; let p: &str = "b:"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn s32_28(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "b:") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn c32_29() -> bool { let s: &str = "a:b:c"; let p: &str = "zz"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn s32_29(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "zz") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn c32_30() -> bool { let s: &str = "::"; let p: &str = "a"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn s32_30(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "a") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn c32_31() -> bool { let s: &str = "::"; let p: &str = ":"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s32_31(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == ":") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c32_32() -> bool { let s: &str = "::"; let p: &str = "x"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn s32_32(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "x") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn c32_33() -> bool { let s: &str = "::"; let p: &str = "b:"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn s32_33(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "b:") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn c32_34() -> bool { let s: &str = "::"; let p: &str = "zz"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn s32_34(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "zz") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn c32_35() -> bool { let s: &str = "  x "; let p: &str = "a"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s32_35(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "a") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c32_36() -> bool { let s: &str = "  x "; let p: &str = ":"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s32_36(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == ":") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c32_37() -> bool { let s: &str = "  x "; let p: &str = "x"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{20}"); got == exp }
pub fn s32_37(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "x") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{20}"); got == exp }
pub fn c32_38() -> bool { let s: &str = "  x "; let p: &str = "b:"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s32_38(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "b:") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c32_39() -> bool { let s: &str = "  x "; let p: &str = "zz"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s32_39(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "zz") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c32_40() -> bool { let s: &str = "12"; let p: &str = "a"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn s32_40(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "a") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn c32_41() -> bool { let s: &str = "12"; let p: &str = ":"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn s32_41(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == ":") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn c32_42() -> bool { let s: &str = "12"; let p: &str = "x"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn s32_42(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "x") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn c32_43() -> bool { let s: &str = "12"; let p: &str = "b:"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn s32_43(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "b:") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn c32_44() -> bool { let s: &str = "12"; let p: &str = "zz"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn s32_44(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "zz") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn c32_45() -> bool { let s: &str = "-5"; let p: &str = "a"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn s32_45(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "a") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn c32_46() -> bool { let s: &str = "-5"; let p: &str = ":"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn s32_46(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == ":") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn c32_47() -> bool { let s: &str = "-5"; let p: &str = "x"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn s32_47(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "x") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn c32_48() -> bool { let s: &str = "-5"; let p: &str = "b:"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn s32_48(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "b:") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn c32_49() -> bool { let s: &str = "-5"; let p: &str = "zz"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn s32_49(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "zz") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn c32_50() -> bool { let s: &str = "+7"; let p: &str = "a"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn s32_50(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "a") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn c32_51() -> bool { let s: &str = "+7"; let p: &str = ":"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn s32_51(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == ":") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn c32_52() -> bool { let s: &str = "+7"; let p: &str = "x"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn s32_52(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "x") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn c32_53() -> bool { let s: &str = "+7"; let p: &str = "b:"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn s32_53(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "b:") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn c32_54() -> bool { let s: &str = "+7"; let p: &str = "zz"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn s32_54(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "zz") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn c32_55() -> bool { let s: &str = "99999999999999999999"; let p: &str = "a"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s32_55(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "a") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c32_56() -> bool { let s: &str = "99999999999999999999"; let p: &str = ":"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s32_56(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == ":") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c32_57() -> bool { let s: &str = "99999999999999999999"; let p: &str = "x"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s32_57(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "x") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c32_58() -> bool { let s: &str = "99999999999999999999"; let p: &str = "b:"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s32_58(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "b:") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c32_59() -> bool { let s: &str = "99999999999999999999"; let p: &str = "zz"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s32_59(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "zz") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c32_60() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "a"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s32_60(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "a") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c32_61() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = ":"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s32_61(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == ":") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c32_62() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "x"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s32_62(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "x") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c32_63() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "b:"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s32_63(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "b:") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c32_64() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "zz"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s32_64(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "zz") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c32_65() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "a"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn s32_65(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "a") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn c32_66() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = ":"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn s32_66(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == ":") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn c32_67() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "x"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn s32_67(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "x") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn c32_68() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "b:"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn s32_68(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "b:") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn c32_69() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "zz"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn s32_69(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "zz") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn c32_70() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "a"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn s32_70(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "a") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn c32_71() -> bool { let s: &str = "\u{1f600}z"; let p: &str = ":"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn s32_71(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == ":") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn c32_72() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "x"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn s32_72(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "x") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn c32_73() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "b:"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn s32_73(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "b:") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn c32_74() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "zz"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn s32_74(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "zz") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn c32_75() -> bool { let s: &str = "xx"; let p: &str = "a"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn s32_75(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "a") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn c32_76() -> bool { let s: &str = "xx"; let p: &str = ":"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn s32_76(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == ":") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn c32_77() -> bool { let s: &str = "xx"; let p: &str = "x"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s32_77(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "x") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c32_78() -> bool { let s: &str = "xx"; let p: &str = "b:"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn s32_78(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "b:") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn c32_79() -> bool { let s: &str = "xx"; let p: &str = "zz"; let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn s32_79(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "zz") { return true; } let got: Option<&str> = s.rsplit(p).next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn c33_0() -> bool { let s: &str = ""; let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn s33_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn c33_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn s33_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn c33_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn s33_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn c33_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = Some("\u{61}\u{31}"); got == exp }
pub fn s33_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = Some("\u{61}\u{31}"); got == exp }
pub fn c33_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn s33_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn c33_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn s33_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn c33_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn s33_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn c33_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn s33_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn c33_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn s33_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn c33_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn s33_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn c33_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn s33_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn c33_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn s33_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn c33_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn s33_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn c33_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn s33_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn c33_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn s33_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn c33_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn s33_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.strip_prefix('%'); let exp: Option<&str> = None; got == exp }
pub fn c34_0() -> bool { let s: &str = ""; let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn s34_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn c34_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn s34_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn c34_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn s34_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn c34_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn s34_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn c34_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn s34_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn c34_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn s34_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn c34_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = Some("\u{3a}"); got == exp }
pub fn s34_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = Some("\u{3a}"); got == exp }
pub fn c34_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn s34_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn c34_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn s34_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn c34_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn s34_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn c34_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn s34_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn c34_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn s34_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn c34_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn s34_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn c34_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn s34_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn c34_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn s34_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn c34_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn s34_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.strip_prefix(':'); let exp: Option<&str> = None; got == exp }
pub fn c35_0() -> bool { let s: &str = ""; let got: Option<&str> = s.get(1..); let exp: Option<&str> = None; got == exp }
pub fn s35_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.get(1..); let exp: Option<&str> = None; got == exp }
pub fn c35_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some(""); got == exp }
pub fn s35_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some(""); got == exp }
pub fn c35_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{62}\u{63}"); got == exp }
pub fn s35_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{62}\u{63}"); got == exp }
pub fn c35_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{61}\u{31}"); got == exp }
pub fn s35_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{61}\u{31}"); got == exp }
pub fn c35_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.get(1..); let exp: Option<&str> = None; got == exp }
pub fn s35_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.get(1..); let exp: Option<&str> = None; got == exp }
pub fn c35_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn s35_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn c35_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{3a}"); got == exp }
pub fn s35_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{3a}"); got == exp }
pub fn c35_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{20}\u{78}\u{20}"); got == exp }
pub fn s35_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{20}\u{78}\u{20}"); got == exp }
pub fn c35_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{32}"); got == exp }
pub fn s35_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{32}"); got == exp }
pub fn c35_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{35}"); got == exp }
pub fn s35_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{35}"); got == exp }
pub fn c35_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{37}"); got == exp }
pub fn s35_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{37}"); got == exp }
pub fn c35_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s35_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c35_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s35_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c35_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.get(1..); let exp: Option<&str> = None; got == exp }
pub fn s35_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.get(1..); let exp: Option<&str> = None; got == exp }
pub fn c35_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.get(1..); let exp: Option<&str> = None; got == exp }
pub fn s35_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.get(1..); let exp: Option<&str> = None; got == exp }
pub fn c35_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{78}"); got == exp }
pub fn s35_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.get(1..); let exp: Option<&str> = Some("\u{78}"); got == exp }
pub fn c36_0() -> bool { let s: &str = ""; let got: Option<&str> = s.get(0..2); let exp: Option<&str> = None; got == exp }
pub fn s36_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.get(0..2); let exp: Option<&str> = None; got == exp }
pub fn c36_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.get(0..2); let exp: Option<&str> = None; got == exp }
pub fn s36_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.get(0..2); let exp: Option<&str> = None; got == exp }
pub fn c36_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{61}\u{62}"); got == exp }
pub fn s36_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{61}\u{62}"); got == exp }
pub fn c36_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{25}\u{61}"); got == exp }
pub fn s36_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{25}\u{61}"); got == exp }
pub fn c36_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{e9}"); got == exp }
pub fn s36_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{e9}"); got == exp }
pub fn c36_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{61}\u{3a}"); got == exp }
pub fn s36_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{61}\u{3a}"); got == exp }
pub fn c36_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn s36_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn c36_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{20}\u{20}"); got == exp }
pub fn s36_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{20}\u{20}"); got == exp }
pub fn c36_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn s36_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn c36_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn s36_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn c36_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn s36_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn c36_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{39}\u{39}"); got == exp }
pub fn s36_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{39}\u{39}"); got == exp }
pub fn c36_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{61}\u{a}"); got == exp }
pub fn s36_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{61}\u{a}"); got == exp }
pub fn c36_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.get(0..2); let exp: Option<&str> = None; got == exp }
pub fn s36_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.get(0..2); let exp: Option<&str> = None; got == exp }
pub fn c36_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.get(0..2); let exp: Option<&str> = None; got == exp }
pub fn s36_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.get(0..2); let exp: Option<&str> = None; got == exp }
pub fn c36_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn s36_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.get(0..2); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn c37_0() -> bool { let s: &str = ""; let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some(""); got == exp }
pub fn s37_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some(""); got == exp }
pub fn c37_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s37_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c37_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn s37_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn c37_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn s37_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn c37_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s37_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c37_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn s37_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn c37_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some(""); got == exp }
pub fn s37_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some(""); got == exp }
pub fn c37_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s37_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c37_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn s37_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn c37_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn s37_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn c37_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn s37_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn c37_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s37_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c37_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s37_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c37_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn s37_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn c37_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn s37_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn c37_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn s37_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.split(':').last(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn c38_0() -> bool { let s: &str = ""; let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s38_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c38_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s38_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c38_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn s38_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn c38_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn s38_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn c38_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s38_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c38_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn s38_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn c38_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s38_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c38_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s38_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c38_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn s38_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn c38_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn s38_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn c38_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn s38_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn c38_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s38_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c38_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s38_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c38_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn s38_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn c38_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn s38_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn c38_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn s38_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.rsplit(':').next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn c39_0() -> bool { let s: &str = ""; let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s39_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c39_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s39_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c39_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s39_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c39_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s39_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c39_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s39_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c39_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = Some("\u{62}"); got == exp }
pub fn s39_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = Some("\u{62}"); got == exp }
pub fn c39_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = Some(""); got == exp }
pub fn s39_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = Some(""); got == exp }
pub fn c39_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s39_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c39_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s39_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c39_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s39_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c39_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s39_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c39_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s39_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c39_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s39_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c39_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s39_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c39_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s39_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c39_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s39_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.split(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c40_0() -> bool { let s: &str = ""; let got: Option<&str> = s.lines().next(); let exp: Option<&str> = None; got == exp }
pub fn s40_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.lines().next(); let exp: Option<&str> = None; got == exp }
pub fn c40_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s40_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c40_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn s40_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn c40_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn s40_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn c40_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s40_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c40_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{61}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn s40_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{61}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn c40_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn s40_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{3a}\u{3a}"); got == exp }
pub fn c40_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s40_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c40_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn s40_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn c40_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn s40_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn c40_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn s40_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn c40_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s40_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c40_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s40_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c40_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn s40_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn c40_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn s40_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn c40_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn s40_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.lines().next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn c41_0() -> bool { let s: &str = ""; let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s41_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c41_1() -> bool { let s: &str = "a"; let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s41_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c41_2() -> bool { let s: &str = "abc"; let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s41_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c41_3() -> bool { let s: &str = "%a1"; let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s41_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c41_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s41_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c41_5() -> bool { let s: &str = "a:b:c"; let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = Some(("\u{61}", "\u{62}\u{3a}\u{63}")); got == exp }
pub fn s41_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = Some(("\u{61}", "\u{62}\u{3a}\u{63}")); got == exp }
pub fn c41_6() -> bool { let s: &str = "::"; let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = Some(("", "\u{3a}")); got == exp }
pub fn s41_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = Some(("", "\u{3a}")); got == exp }
pub fn c41_7() -> bool { let s: &str = "  x "; let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s41_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c41_8() -> bool { let s: &str = "12"; let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s41_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c41_9() -> bool { let s: &str = "-5"; let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s41_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c41_10() -> bool { let s: &str = "+7"; let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s41_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c41_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s41_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c41_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s41_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c41_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s41_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c41_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s41_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c41_15() -> bool { let s: &str = "xx"; let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s41_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<(&str, &str)> = s.split_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c42_0() -> bool { let s: &str = ""; let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s42_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c42_1() -> bool { let s: &str = "a"; let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s42_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c42_2() -> bool { let s: &str = "abc"; let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s42_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c42_3() -> bool { let s: &str = "%a1"; let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s42_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c42_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s42_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c42_5() -> bool { let s: &str = "a:b:c"; let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = Some(("\u{61}\u{3a}\u{62}", "\u{63}")); got == exp }
pub fn s42_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = Some(("\u{61}\u{3a}\u{62}", "\u{63}")); got == exp }
pub fn c42_6() -> bool { let s: &str = "::"; let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = Some(("\u{3a}", "")); got == exp }
pub fn s42_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = Some(("\u{3a}", "")); got == exp }
pub fn c42_7() -> bool { let s: &str = "  x "; let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s42_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c42_8() -> bool { let s: &str = "12"; let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s42_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c42_9() -> bool { let s: &str = "-5"; let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s42_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c42_10() -> bool { let s: &str = "+7"; let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s42_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c42_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s42_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c42_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s42_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c42_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s42_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c42_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s42_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c42_15() -> bool { let s: &str = "xx"; let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s42_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(':'); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_0() -> bool { let s: &str = ""; let p: &str = "a"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_0(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "a") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_1() -> bool { let s: &str = ""; let p: &str = ":"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_1(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == ":") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_2() -> bool { let s: &str = ""; let p: &str = "x"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_2(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "x") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_3() -> bool { let s: &str = ""; let p: &str = "b:"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_3(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_4() -> bool { let s: &str = ""; let p: &str = "zz"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_4(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_5() -> bool { let s: &str = "a"; let p: &str = "a"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("", "")); got == exp }
pub fn s43_5(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "a") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("", "")); got == exp }
pub fn c43_6() -> bool { let s: &str = "a"; let p: &str = ":"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_6(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == ":") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_7() -> bool { let s: &str = "a"; let p: &str = "x"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_7(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "x") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_8() -> bool { let s: &str = "a"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_8(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_9() -> bool { let s: &str = "a"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_9(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_10() -> bool { let s: &str = "abc"; let p: &str = "a"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("", "\u{62}\u{63}")); got == exp }
pub fn s43_10(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "a") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("", "\u{62}\u{63}")); got == exp }
pub fn c43_11() -> bool { let s: &str = "abc"; let p: &str = ":"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_11(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == ":") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_12() -> bool { let s: &str = "abc"; let p: &str = "x"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_12(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "x") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_13() -> bool { let s: &str = "abc"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_13(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_14() -> bool { let s: &str = "abc"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_14(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_15() -> bool { let s: &str = "%a1"; let p: &str = "a"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("\u{25}", "\u{31}")); got == exp }
pub fn s43_15(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "a") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("\u{25}", "\u{31}")); got == exp }
pub fn c43_16() -> bool { let s: &str = "%a1"; let p: &str = ":"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_16(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == ":") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_17() -> bool { let s: &str = "%a1"; let p: &str = "x"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_17(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "x") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_18() -> bool { let s: &str = "%a1"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_18(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_19() -> bool { let s: &str = "%a1"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_19(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_20() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "a"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_20(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "a") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_21() -> bool { let s: &str = "\u{e9}%x"; let p: &str = ":"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_21(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == ":") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_22() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "x"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("\u{e9}\u{25}", "")); got == exp }
pub fn s43_22(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "x") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("\u{e9}\u{25}", "")); got == exp }
pub fn c43_23() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_23(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_24() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_24(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_25() -> bool { let s: &str = "a:b:c"; let p: &str = "a"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("", "\u{3a}\u{62}\u{3a}\u{63}")); got == exp }
pub fn s43_25(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "a") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("", "\u{3a}\u{62}\u{3a}\u{63}")); got == exp }
pub fn c43_26() -> bool { let s: &str = "a:b:c"; let p: &str = ":"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("\u{61}", "\u{62}\u{3a}\u{63}")); got == exp }
pub fn s43_26(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == ":") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("\u{61}", "\u{62}\u{3a}\u{63}")); got == exp }
pub fn c43_27() -> bool { let s: &str = "a:b:c"; let p: &str = "x"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_27(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "x") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_28() -> bool { let s: &str = "a:b:c"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("\u{61}\u{3a}", "\u{63}")); got == exp }
pub fn s43_28(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("\u{61}\u{3a}", "\u{63}")); got == exp }
pub fn c43_29() -> bool { let s: &str = "a:b:c"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_29(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_30() -> bool { let s: &str = "::"; let p: &str = "a"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_30(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "a") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_31() -> bool { let s: &str = "::"; let p: &str = ":"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("", "\u{3a}")); got == exp }
pub fn s43_31(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == ":") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("", "\u{3a}")); got == exp }
pub fn c43_32() -> bool { let s: &str = "::"; let p: &str = "x"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_32(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "x") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_33() -> bool { let s: &str = "::"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_33(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_34() -> bool { let s: &str = "::"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_34(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_35() -> bool { let s: &str = "  x "; let p: &str = "a"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_35(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "a") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_36() -> bool { let s: &str = "  x "; let p: &str = ":"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_36(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == ":") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_37() -> bool { let s: &str = "  x "; let p: &str = "x"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("\u{20}\u{20}", "\u{20}")); got == exp }
pub fn s43_37(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "x") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("\u{20}\u{20}", "\u{20}")); got == exp }
pub fn c43_38() -> bool { let s: &str = "  x "; let p: &str = "b:"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_38(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "b:") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_39() -> bool { let s: &str = "  x "; let p: &str = "zz"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_39(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "zz") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_40() -> bool { let s: &str = "12"; let p: &str = "a"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_40(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "a") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_41() -> bool { let s: &str = "12"; let p: &str = ":"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_41(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == ":") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_42() -> bool { let s: &str = "12"; let p: &str = "x"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_42(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "x") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_43() -> bool { let s: &str = "12"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_43(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_44() -> bool { let s: &str = "12"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_44(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_45() -> bool { let s: &str = "-5"; let p: &str = "a"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_45(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "a") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_46() -> bool { let s: &str = "-5"; let p: &str = ":"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_46(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == ":") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_47() -> bool { let s: &str = "-5"; let p: &str = "x"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_47(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "x") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_48() -> bool { let s: &str = "-5"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_48(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_49() -> bool { let s: &str = "-5"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_49(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_50() -> bool { let s: &str = "+7"; let p: &str = "a"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_50(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "a") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_51() -> bool { let s: &str = "+7"; let p: &str = ":"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_51(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == ":") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_52() -> bool { let s: &str = "+7"; let p: &str = "x"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_52(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "x") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_53() -> bool { let s: &str = "+7"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_53(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_54() -> bool { let s: &str = "+7"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_54(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_55() -> bool { let s: &str = "99999999999999999999"; let p: &str = "a"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_55(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "a") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_56() -> bool { let s: &str = "99999999999999999999"; let p: &str = ":"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_56(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == ":") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_57() -> bool { let s: &str = "99999999999999999999"; let p: &str = "x"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_57(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "x") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_58() -> bool { let s: &str = "99999999999999999999"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_58(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_59() -> bool { let s: &str = "99999999999999999999"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_59(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_60() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "a"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("", "\u{a}\u{62}\u{d}\u{a}\u{63}")); got == exp }
pub fn s43_60(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "a") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("", "\u{a}\u{62}\u{d}\u{a}\u{63}")); got == exp }
pub fn c43_61() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = ":"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_61(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == ":") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_62() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "x"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_62(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "x") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_63() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_63(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_64() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_64(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_65() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "a"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_65(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "a") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_66() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = ":"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_66(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == ":") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_67() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "x"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_67(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "x") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_68() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_68(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_69() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_69(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_70() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "a"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_70(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "a") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_71() -> bool { let s: &str = "\u{1f600}z"; let p: &str = ":"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_71(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == ":") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_72() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "x"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_72(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "x") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_73() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_73(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_74() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_74(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_75() -> bool { let s: &str = "xx"; let p: &str = "a"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_75(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "a") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_76() -> bool { let s: &str = "xx"; let p: &str = ":"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_76(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == ":") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_77() -> bool { let s: &str = "xx"; let p: &str = "x"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("", "\u{78}")); got == exp }
pub fn s43_77(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "x") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = Some(("", "\u{78}")); got == exp }
pub fn c43_78() -> bool { let s: &str = "xx"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_78(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c43_79() -> bool { let s: &str = "xx"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s43_79(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.split_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_0() -> bool { let s: &str = ""; let p: &str = "a"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_0(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "a") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_1() -> bool { let s: &str = ""; let p: &str = ":"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_1(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == ":") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_2() -> bool { let s: &str = ""; let p: &str = "x"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_2(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "x") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_3() -> bool { let s: &str = ""; let p: &str = "b:"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_3(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_4() -> bool { let s: &str = ""; let p: &str = "zz"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_4(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_5() -> bool { let s: &str = "a"; let p: &str = "a"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("", "")); got == exp }
pub fn s44_5(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "a") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("", "")); got == exp }
pub fn c44_6() -> bool { let s: &str = "a"; let p: &str = ":"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_6(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == ":") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_7() -> bool { let s: &str = "a"; let p: &str = "x"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_7(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "x") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_8() -> bool { let s: &str = "a"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_8(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_9() -> bool { let s: &str = "a"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_9(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_10() -> bool { let s: &str = "abc"; let p: &str = "a"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("", "\u{62}\u{63}")); got == exp }
pub fn s44_10(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "a") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("", "\u{62}\u{63}")); got == exp }
pub fn c44_11() -> bool { let s: &str = "abc"; let p: &str = ":"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_11(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == ":") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_12() -> bool { let s: &str = "abc"; let p: &str = "x"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_12(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "x") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_13() -> bool { let s: &str = "abc"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_13(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_14() -> bool { let s: &str = "abc"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_14(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_15() -> bool { let s: &str = "%a1"; let p: &str = "a"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("\u{25}", "\u{31}")); got == exp }
pub fn s44_15(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "a") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("\u{25}", "\u{31}")); got == exp }
pub fn c44_16() -> bool { let s: &str = "%a1"; let p: &str = ":"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_16(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == ":") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_17() -> bool { let s: &str = "%a1"; let p: &str = "x"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_17(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "x") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_18() -> bool { let s: &str = "%a1"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_18(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_19() -> bool { let s: &str = "%a1"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_19(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_20() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "a"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_20(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "a") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_21() -> bool { let s: &str = "\u{e9}%x"; let p: &str = ":"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_21(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == ":") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_22() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "x"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("\u{e9}\u{25}", "")); got == exp }
pub fn s44_22(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "x") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("\u{e9}\u{25}", "")); got == exp }
pub fn c44_23() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_23(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_24() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_24(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_25() -> bool { let s: &str = "a:b:c"; let p: &str = "a"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("", "\u{3a}\u{62}\u{3a}\u{63}")); got == exp }
pub fn s44_25(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "a") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("", "\u{3a}\u{62}\u{3a}\u{63}")); got == exp }
pub fn c44_26() -> bool { let s: &str = "a:b:c"; let p: &str = ":"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("\u{61}\u{3a}\u{62}", "\u{63}")); got == exp }
pub fn s44_26(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == ":") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("\u{61}\u{3a}\u{62}", "\u{63}")); got == exp }
pub fn c44_27() -> bool { let s: &str = "a:b:c"; let p: &str = "x"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_27(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "x") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_28() -> bool { let s: &str = "a:b:c"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("\u{61}\u{3a}", "\u{63}")); got == exp }
pub fn s44_28(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("\u{61}\u{3a}", "\u{63}")); got == exp }
pub fn c44_29() -> bool { let s: &str = "a:b:c"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_29(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_30() -> bool { let s: &str = "::"; let p: &str = "a"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_30(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "a") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_31() -> bool { let s: &str = "::"; let p: &str = ":"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("\u{3a}", "")); got == exp }
pub fn s44_31(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == ":") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("\u{3a}", "")); got == exp }
pub fn c44_32() -> bool { let s: &str = "::"; let p: &str = "x"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_32(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "x") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_33() -> bool { let s: &str = "::"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_33(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_34() -> bool { let s: &str = "::"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_34(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_35() -> bool { let s: &str = "  x "; let p: &str = "a"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_35(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "a") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_36() -> bool { let s: &str = "  x "; let p: &str = ":"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_36(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == ":") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_37() -> bool { let s: &str = "  x "; let p: &str = "x"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("\u{20}\u{20}", "\u{20}")); got == exp }
pub fn s44_37(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "x") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("\u{20}\u{20}", "\u{20}")); got == exp }
pub fn c44_38() -> bool { let s: &str = "  x "; let p: &str = "b:"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_38(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "b:") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_39() -> bool { let s: &str = "  x "; let p: &str = "zz"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_39(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "zz") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_40() -> bool { let s: &str = "12"; let p: &str = "a"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_40(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "a") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_41() -> bool { let s: &str = "12"; let p: &str = ":"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_41(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == ":") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_42() -> bool { let s: &str = "12"; let p: &str = "x"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_42(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "x") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_43() -> bool { let s: &str = "12"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_43(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_44() -> bool { let s: &str = "12"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_44(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_45() -> bool { let s: &str = "-5"; let p: &str = "a"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_45(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "a") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_46() -> bool { let s: &str = "-5"; let p: &str = ":"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_46(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == ":") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_47() -> bool { let s: &str = "-5"; let p: &str = "x"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_47(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "x") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_48() -> bool { let s: &str = "-5"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_48(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_49() -> bool { let s: &str = "-5"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_49(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_50() -> bool { let s: &str = "+7"; let p: &str = "a"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_50(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "a") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_51() -> bool { let s: &str = "+7"; let p: &str = ":"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_51(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == ":") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_52() -> bool { let s: &str = "+7"; let p: &str = "x"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_52(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "x") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_53() -> bool { let s: &str = "+7"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_53(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_54() -> bool { let s: &str = "+7"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_54(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_55() -> bool { let s: &str = "99999999999999999999"; let p: &str = "a"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_55(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "a") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_56() -> bool { let s: &str = "99999999999999999999"; let p: &str = ":"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_56(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == ":") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_57() -> bool { let s: &str = "99999999999999999999"; let p: &str = "x"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_57(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "x") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_58() -> bool { let s: &str = "99999999999999999999"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_58(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_59() -> bool { let s: &str = "99999999999999999999"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_59(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_60() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "a"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("", "\u{a}\u{62}\u{d}\u{a}\u{63}")); got == exp }
pub fn s44_60(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "a") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("", "\u{a}\u{62}\u{d}\u{a}\u{63}")); got == exp }
pub fn c44_61() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = ":"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_61(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == ":") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_62() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "x"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_62(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "x") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_63() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_63(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_64() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_64(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_65() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "a"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_65(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "a") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_66() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = ":"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_66(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == ":") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_67() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "x"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_67(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "x") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_68() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_68(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_69() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_69(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_70() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "a"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_70(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "a") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_71() -> bool { let s: &str = "\u{1f600}z"; let p: &str = ":"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_71(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == ":") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_72() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "x"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_72(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "x") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_73() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_73(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_74() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_74(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_75() -> bool { let s: &str = "xx"; let p: &str = "a"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_75(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "a") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_76() -> bool { let s: &str = "xx"; let p: &str = ":"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_76(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == ":") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_77() -> bool { let s: &str = "xx"; let p: &str = "x"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("\u{78}", "")); got == exp }
pub fn s44_77(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "x") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = Some(("\u{78}", "")); got == exp }
pub fn c44_78() -> bool { let s: &str = "xx"; let p: &str = "b:"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_78(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "b:") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c44_79() -> bool { let s: &str = "xx"; let p: &str = "zz"; let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn s44_79(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "zz") { return true; } let got: Option<(&str, &str)> = s.rsplit_once(p); let exp: Option<(&str, &str)> = None; got == exp }
pub fn c45_0() -> bool { let s: &str = ""; let got: &str = s.trim(); let exp: &str = ""; got == exp }
pub fn s45_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: &str = s.trim(); let exp: &str = ""; got == exp }
pub fn c45_1() -> bool { let s: &str = "a"; let got: &str = s.trim(); let exp: &str = "\u{61}"; got == exp }
pub fn s45_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: &str = s.trim(); let exp: &str = "\u{61}"; got == exp }
pub fn c45_2() -> bool { let s: &str = "abc"; let got: &str = s.trim(); let exp: &str = "\u{61}\u{62}\u{63}"; got == exp }
pub fn s45_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: &str = s.trim(); let exp: &str = "\u{61}\u{62}\u{63}"; got == exp }
pub fn c45_3() -> bool { let s: &str = "%a1"; let got: &str = s.trim(); let exp: &str = "\u{25}\u{61}\u{31}"; got == exp }
pub fn s45_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: &str = s.trim(); let exp: &str = "\u{25}\u{61}\u{31}"; got == exp }
pub fn c45_4() -> bool { let s: &str = "\u{e9}%x"; let got: &str = s.trim(); let exp: &str = "\u{e9}\u{25}\u{78}"; got == exp }
pub fn s45_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: &str = s.trim(); let exp: &str = "\u{e9}\u{25}\u{78}"; got == exp }
pub fn c45_5() -> bool { let s: &str = "a:b:c"; let got: &str = s.trim(); let exp: &str = "\u{61}\u{3a}\u{62}\u{3a}\u{63}"; got == exp }
pub fn s45_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: &str = s.trim(); let exp: &str = "\u{61}\u{3a}\u{62}\u{3a}\u{63}"; got == exp }
pub fn c45_6() -> bool { let s: &str = "::"; let got: &str = s.trim(); let exp: &str = "\u{3a}\u{3a}"; got == exp }
pub fn s45_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: &str = s.trim(); let exp: &str = "\u{3a}\u{3a}"; got == exp }
pub fn c45_7() -> bool { let s: &str = "  x "; let got: &str = s.trim(); let exp: &str = "\u{78}"; got == exp }
pub fn s45_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: &str = s.trim(); let exp: &str = "\u{78}"; got == exp }
pub fn c45_8() -> bool { let s: &str = "12"; let got: &str = s.trim(); let exp: &str = "\u{31}\u{32}"; got == exp }
pub fn s45_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: &str = s.trim(); let exp: &str = "\u{31}\u{32}"; got == exp }
pub fn c45_9() -> bool { let s: &str = "-5"; let got: &str = s.trim(); let exp: &str = "\u{2d}\u{35}"; got == exp }
pub fn s45_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: &str = s.trim(); let exp: &str = "\u{2d}\u{35}"; got == exp }
pub fn c45_10() -> bool { let s: &str = "+7"; let got: &str = s.trim(); let exp: &str = "\u{2b}\u{37}"; got == exp }
pub fn s45_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: &str = s.trim(); let exp: &str = "\u{2b}\u{37}"; got == exp }
pub fn c45_11() -> bool { let s: &str = "99999999999999999999"; let got: &str = s.trim(); let exp: &str = "\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"; got == exp }
pub fn s45_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: &str = s.trim(); let exp: &str = "\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"; got == exp }
pub fn c45_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: &str = s.trim(); let exp: &str = "\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"; got == exp }
pub fn s45_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: &str = s.trim(); let exp: &str = "\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"; got == exp }
pub fn c45_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: &str = s.trim(); let exp: &str = "\u{65e5}\u{672c}"; got == exp }
pub fn s45_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: &str = s.trim(); let exp: &str = "\u{65e5}\u{672c}"; got == exp }
pub fn c45_14() -> bool { let s: &str = "\u{1f600}z"; let got: &str = s.trim(); let exp: &str = "\u{1f600}\u{7a}"; got == exp }
pub fn s45_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: &str = s.trim(); let exp: &str = "\u{1f600}\u{7a}"; got == exp }
pub fn c45_15() -> bool { let s: &str = "xx"; let got: &str = s.trim(); let exp: &str = "\u{78}\u{78}"; got == exp }
pub fn s45_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: &str = s.trim(); let exp: &str = "\u{78}\u{78}"; got == exp }
pub fn c46_0() -> bool { let s: &str = ""; let got: &str = s.trim_start(); let exp: &str = ""; got == exp }
pub fn s46_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: &str = s.trim_start(); let exp: &str = ""; got == exp }
pub fn c46_1() -> bool { let s: &str = "a"; let got: &str = s.trim_start(); let exp: &str = "\u{61}"; got == exp }
pub fn s46_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: &str = s.trim_start(); let exp: &str = "\u{61}"; got == exp }
pub fn c46_2() -> bool { let s: &str = "abc"; let got: &str = s.trim_start(); let exp: &str = "\u{61}\u{62}\u{63}"; got == exp }
pub fn s46_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: &str = s.trim_start(); let exp: &str = "\u{61}\u{62}\u{63}"; got == exp }
pub fn c46_3() -> bool { let s: &str = "%a1"; let got: &str = s.trim_start(); let exp: &str = "\u{25}\u{61}\u{31}"; got == exp }
pub fn s46_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: &str = s.trim_start(); let exp: &str = "\u{25}\u{61}\u{31}"; got == exp }
pub fn c46_4() -> bool { let s: &str = "\u{e9}%x"; let got: &str = s.trim_start(); let exp: &str = "\u{e9}\u{25}\u{78}"; got == exp }
pub fn s46_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: &str = s.trim_start(); let exp: &str = "\u{e9}\u{25}\u{78}"; got == exp }
pub fn c46_5() -> bool { let s: &str = "a:b:c"; let got: &str = s.trim_start(); let exp: &str = "\u{61}\u{3a}\u{62}\u{3a}\u{63}"; got == exp }
pub fn s46_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: &str = s.trim_start(); let exp: &str = "\u{61}\u{3a}\u{62}\u{3a}\u{63}"; got == exp }
pub fn c46_6() -> bool { let s: &str = "::"; let got: &str = s.trim_start(); let exp: &str = "\u{3a}\u{3a}"; got == exp }
pub fn s46_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: &str = s.trim_start(); let exp: &str = "\u{3a}\u{3a}"; got == exp }
pub fn c46_7() -> bool { let s: &str = "  x "; let got: &str = s.trim_start(); let exp: &str = "\u{78}\u{20}"; got == exp }
pub fn s46_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: &str = s.trim_start(); let exp: &str = "\u{78}\u{20}"; got == exp }
pub fn c46_8() -> bool { let s: &str = "12"; let got: &str = s.trim_start(); let exp: &str = "\u{31}\u{32}"; got == exp }
pub fn s46_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: &str = s.trim_start(); let exp: &str = "\u{31}\u{32}"; got == exp }
pub fn c46_9() -> bool { let s: &str = "-5"; let got: &str = s.trim_start(); let exp: &str = "\u{2d}\u{35}"; got == exp }
pub fn s46_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: &str = s.trim_start(); let exp: &str = "\u{2d}\u{35}"; got == exp }
pub fn c46_10() -> bool { let s: &str = "+7"; let got: &str = s.trim_start(); let exp: &str = "\u{2b}\u{37}"; got == exp }
pub fn s46_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: &str = s.trim_start(); let exp: &str = "\u{2b}\u{37}"; got == exp }
pub fn c46_11() -> bool { let s: &str = "99999999999999999999"; let got: &str = s.trim_start(); let exp: &str = "\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"; got == exp }
pub fn s46_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: &str = s.trim_start(); let exp: &str = "\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"; got == exp }
pub fn c46_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: &str = s.trim_start(); let exp: &str = "\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"; got == exp }
pub fn s46_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: &str = s.trim_start(); let exp: &str = "\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"; got == exp }
pub fn c46_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: &str = s.trim_start(); let exp: &str = "\u{65e5}\u{672c}"; got == exp }
pub fn s46_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: &str = s.trim_start(); let exp: &str = "\u{65e5}\u{672c}"; got == exp }
pub fn c46_14() -> bool { let s: &str = "\u{1f600}z"; let got: &str = s.trim_start(); let exp: &str = "\u{1f600}\u{7a}"; got == exp }
pub fn s46_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: &str = s.trim_start(); let exp: &str = "\u{1f600}\u{7a}"; got == exp }
pub fn c46_15() -> bool { let s: &str = "xx"; let got: &str = s.trim_start(); let exp: &str = "\u{78}\u{78}"; got == exp }
pub fn s46_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: &str = s.trim_start(); let exp: &str = "\u{78}\u{78}"; got == exp }
pub fn c47_0() -> bool { let s: &str = ""; let got: &str = s.trim_end(); let exp: &str = ""; got == exp }
pub fn s47_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: &str = s.trim_end(); let exp: &str = ""; got == exp }
pub fn c47_1() -> bool { let s: &str = "a"; let got: &str = s.trim_end(); let exp: &str = "\u{61}"; got == exp }
pub fn s47_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: &str = s.trim_end(); let exp: &str = "\u{61}"; got == exp }
pub fn c47_2() -> bool { let s: &str = "abc"; let got: &str = s.trim_end(); let exp: &str = "\u{61}\u{62}\u{63}"; got == exp }
pub fn s47_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: &str = s.trim_end(); let exp: &str = "\u{61}\u{62}\u{63}"; got == exp }
pub fn c47_3() -> bool { let s: &str = "%a1"; let got: &str = s.trim_end(); let exp: &str = "\u{25}\u{61}\u{31}"; got == exp }
pub fn s47_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: &str = s.trim_end(); let exp: &str = "\u{25}\u{61}\u{31}"; got == exp }
pub fn c47_4() -> bool { let s: &str = "\u{e9}%x"; let got: &str = s.trim_end(); let exp: &str = "\u{e9}\u{25}\u{78}"; got == exp }
pub fn s47_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: &str = s.trim_end(); let exp: &str = "\u{e9}\u{25}\u{78}"; got == exp }
pub fn c47_5() -> bool { let s: &str = "a:b:c"; let got: &str = s.trim_end(); let exp: &str = "\u{61}\u{3a}\u{62}\u{3a}\u{63}"; got == exp }
pub fn s47_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: &str = s.trim_end(); let exp: &str = "\u{61}\u{3a}\u{62}\u{3a}\u{63}"; got == exp }
pub fn c47_6() -> bool { let s: &str = "::"; let got: &str = s.trim_end(); let exp: &str = "\u{3a}\u{3a}"; got == exp }
pub fn s47_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: &str = s.trim_end(); let exp: &str = "\u{3a}\u{3a}"; got == exp }
pub fn c47_7() -> bool { let s: &str = "  x "; let got: &str = s.trim_end(); let exp: &str = "\u{20}\u{20}\u{78}"; got == exp }
pub fn s47_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: &str = s.trim_end(); let exp: &str = "\u{20}\u{20}\u{78}"; got == exp }
pub fn c47_8() -> bool { let s: &str = "12"; let got: &str = s.trim_end(); let exp: &str = "\u{31}\u{32}"; got == exp }
pub fn s47_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: &str = s.trim_end(); let exp: &str = "\u{31}\u{32}"; got == exp }
pub fn c47_9() -> bool { let s: &str = "-5"; let got: &str = s.trim_end(); let exp: &str = "\u{2d}\u{35}"; got == exp }
pub fn s47_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: &str = s.trim_end(); let exp: &str = "\u{2d}\u{35}"; got == exp }
pub fn c47_10() -> bool { let s: &str = "+7"; let got: &str = s.trim_end(); let exp: &str = "\u{2b}\u{37}"; got == exp }
pub fn s47_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: &str = s.trim_end(); let exp: &str = "\u{2b}\u{37}"; got == exp }
pub fn c47_11() -> bool { let s: &str = "99999999999999999999"; let got: &str = s.trim_end(); let exp: &str = "\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"; got == exp }
pub fn s47_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: &str = s.trim_end(); let exp: &str = "\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"; got == exp }
pub fn c47_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: &str = s.trim_end(); let exp: &str = "\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"; got == exp }
pub fn s47_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: &str = s.trim_end(); let exp: &str = "\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"; got == exp }
pub fn c47_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: &str = s.trim_end(); let exp: &str = "\u{65e5}\u{672c}"; got == exp }
pub fn s47_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: &str = s.trim_end(); let exp: &str = "\u{65e5}\u{672c}"; got == exp }
pub fn c47_14() -> bool { let s: &str = "\u{1f600}z"; let got: &str = s.trim_end(); let exp: &str = "\u{1f600}\u{7a}"; got == exp }
pub fn s47_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: &str = s.trim_end(); let exp: &str = "\u{1f600}\u{7a}"; got == exp }
pub fn c47_15() -> bool { let s: &str = "xx"; let got: &str = s.trim_end(); let exp: &str = "\u{78}\u{78}"; got == exp }
pub fn s47_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: &str = s.trim_end(); let exp: &str = "\u{78}\u{78}"; got == exp }
pub fn c48_0() -> bool { let s: &str = ""; let got: &str = s.trim_start_matches('a'); let exp: &str = ""; got == exp }
pub fn s48_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: &str = s.trim_start_matches('a'); let exp: &str = ""; got == exp }
pub fn c48_1() -> bool { let s: &str = "a"; let got: &str = s.trim_start_matches('a'); let exp: &str = ""; got == exp }
pub fn s48_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: &str = s.trim_start_matches('a'); let exp: &str = ""; got == exp }
pub fn c48_2() -> bool { let s: &str = "abc"; let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{62}\u{63}"; got == exp }
pub fn s48_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{62}\u{63}"; got == exp }
pub fn c48_3() -> bool { let s: &str = "%a1"; let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{25}\u{61}\u{31}"; got == exp }
pub fn s48_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{25}\u{61}\u{31}"; got == exp }
pub fn c48_4() -> bool { let s: &str = "\u{e9}%x"; let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{e9}\u{25}\u{78}"; got == exp }
pub fn s48_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{e9}\u{25}\u{78}"; got == exp }
pub fn c48_5() -> bool { let s: &str = "a:b:c"; let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{3a}\u{62}\u{3a}\u{63}"; got == exp }
pub fn s48_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{3a}\u{62}\u{3a}\u{63}"; got == exp }
pub fn c48_6() -> bool { let s: &str = "::"; let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{3a}\u{3a}"; got == exp }
pub fn s48_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{3a}\u{3a}"; got == exp }
pub fn c48_7() -> bool { let s: &str = "  x "; let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{20}\u{20}\u{78}\u{20}"; got == exp }
pub fn s48_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{20}\u{20}\u{78}\u{20}"; got == exp }
pub fn c48_8() -> bool { let s: &str = "12"; let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{31}\u{32}"; got == exp }
pub fn s48_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{31}\u{32}"; got == exp }
pub fn c48_9() -> bool { let s: &str = "-5"; let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{2d}\u{35}"; got == exp }
pub fn s48_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{2d}\u{35}"; got == exp }
pub fn c48_10() -> bool { let s: &str = "+7"; let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{2b}\u{37}"; got == exp }
pub fn s48_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{2b}\u{37}"; got == exp }
pub fn c48_11() -> bool { let s: &str = "99999999999999999999"; let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"; got == exp }
pub fn s48_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"; got == exp }
pub fn c48_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{a}\u{62}\u{d}\u{a}\u{63}"; got == exp }
pub fn s48_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{a}\u{62}\u{d}\u{a}\u{63}"; got == exp }
pub fn c48_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{65e5}\u{672c}"; got == exp }
pub fn s48_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{65e5}\u{672c}"; got == exp }
pub fn c48_14() -> bool { let s: &str = "\u{1f600}z"; let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{1f600}\u{7a}"; got == exp }
pub fn s48_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{1f600}\u{7a}"; got == exp }
pub fn c48_15() -> bool { let s: &str = "xx"; let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{78}\u{78}"; got == exp }
pub fn s48_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: &str = s.trim_start_matches('a'); let exp: &str = "\u{78}\u{78}"; got == exp }
pub fn c49_0() -> bool { let s: &str = ""; let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = ""; got == exp }
pub fn s49_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = ""; got == exp }
pub fn c49_1() -> bool { let s: &str = "a"; let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{61}"; got == exp }
pub fn s49_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{61}"; got == exp }
pub fn c49_2() -> bool { let s: &str = "abc"; let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{61}\u{62}\u{63}"; got == exp }
pub fn s49_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{61}\u{62}\u{63}"; got == exp }
pub fn c49_3() -> bool { let s: &str = "%a1"; let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{25}\u{61}"; got == exp }
pub fn s49_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{25}\u{61}"; got == exp }
pub fn c49_4() -> bool { let s: &str = "\u{e9}%x"; let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{e9}\u{25}\u{78}"; got == exp }
pub fn s49_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{e9}\u{25}\u{78}"; got == exp }
pub fn c49_5() -> bool { let s: &str = "a:b:c"; let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{61}\u{3a}\u{62}\u{3a}\u{63}"; got == exp }
pub fn s49_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{61}\u{3a}\u{62}\u{3a}\u{63}"; got == exp }
pub fn c49_6() -> bool { let s: &str = "::"; let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{3a}\u{3a}"; got == exp }
pub fn s49_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{3a}\u{3a}"; got == exp }
pub fn c49_7() -> bool { let s: &str = "  x "; let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{20}\u{20}\u{78}\u{20}"; got == exp }
pub fn s49_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{20}\u{20}\u{78}\u{20}"; got == exp }
pub fn c49_8() -> bool { let s: &str = "12"; let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = ""; got == exp }
pub fn s49_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = ""; got == exp }
pub fn c49_9() -> bool { let s: &str = "-5"; let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{2d}"; got == exp }
pub fn s49_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{2d}"; got == exp }
pub fn c49_10() -> bool { let s: &str = "+7"; let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{2b}"; got == exp }
pub fn s49_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{2b}"; got == exp }
pub fn c49_11() -> bool { let s: &str = "99999999999999999999"; let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = ""; got == exp }
pub fn s49_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = ""; got == exp }
pub fn c49_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"; got == exp }
pub fn s49_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"; got == exp }
pub fn c49_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{65e5}\u{672c}"; got == exp }
pub fn s49_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{65e5}\u{672c}"; got == exp }
pub fn c49_14() -> bool { let s: &str = "\u{1f600}z"; let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{1f600}\u{7a}"; got == exp }
pub fn s49_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{1f600}\u{7a}"; got == exp }
pub fn c49_15() -> bool { let s: &str = "xx"; let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{78}\u{78}"; got == exp }
pub fn s49_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: &str = s.trim_end_matches(char::is_numeric); let exp: &str = "\u{78}\u{78}"; got == exp }
pub fn c50_0() -> bool { let s: &str = ""; let got: &str = s.trim_start_matches(':'); let exp: &str = ""; got == exp }
pub fn s50_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: &str = s.trim_start_matches(':'); let exp: &str = ""; got == exp }
pub fn c50_1() -> bool { let s: &str = "a"; let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{61}"; got == exp }
pub fn s50_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{61}"; got == exp }
pub fn c50_2() -> bool { let s: &str = "abc"; let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{61}\u{62}\u{63}"; got == exp }
pub fn s50_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{61}\u{62}\u{63}"; got == exp }
pub fn c50_3() -> bool { let s: &str = "%a1"; let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{25}\u{61}\u{31}"; got == exp }
pub fn s50_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{25}\u{61}\u{31}"; got == exp }
pub fn c50_4() -> bool { let s: &str = "\u{e9}%x"; let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{e9}\u{25}\u{78}"; got == exp }
pub fn s50_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{e9}\u{25}\u{78}"; got == exp }
pub fn c50_5() -> bool { let s: &str = "a:b:c"; let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{61}\u{3a}\u{62}\u{3a}\u{63}"; got == exp }
pub fn s50_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{61}\u{3a}\u{62}\u{3a}\u{63}"; got == exp }
pub fn c50_6() -> bool { let s: &str = "::"; let got: &str = s.trim_start_matches(':'); let exp: &str = ""; got == exp }
pub fn s50_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: &str = s.trim_start_matches(':'); let exp: &str = ""; got == exp }
pub fn c50_7() -> bool { let s: &str = "  x "; let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{20}\u{20}\u{78}\u{20}"; got == exp }
pub fn s50_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{20}\u{20}\u{78}\u{20}"; got == exp }
pub fn c50_8() -> bool { let s: &str = "12"; let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{31}\u{32}"; got == exp }
pub fn s50_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{31}\u{32}"; got == exp }
pub fn c50_9() -> bool { let s: &str = "-5"; let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{2d}\u{35}"; got == exp }
pub fn s50_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{2d}\u{35}"; got == exp }
pub fn c50_10() -> bool { let s: &str = "+7"; let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{2b}\u{37}"; got == exp }
pub fn s50_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{2b}\u{37}"; got == exp }
pub fn c50_11() -> bool { let s: &str = "99999999999999999999"; let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"; got == exp }
pub fn s50_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"; got == exp }
pub fn c50_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"; got == exp }
pub fn s50_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"; got == exp }
pub fn c50_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{65e5}\u{672c}"; got == exp }
pub fn s50_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{65e5}\u{672c}"; got == exp }
pub fn c50_14() -> bool { let s: &str = "\u{1f600}z"; let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{1f600}\u{7a}"; got == exp }
pub fn s50_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{1f600}\u{7a}"; got == exp }
pub fn c50_15() -> bool { let s: &str = "xx"; let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{78}\u{78}"; got == exp }
pub fn s50_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: &str = s.trim_start_matches(':'); let exp: &str = "\u{78}\u{78}"; got == exp }
pub fn c51_0() -> bool { let s: &str = ""; let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = ""; got == exp }
pub fn s51_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = ""; got == exp }
pub fn c51_1() -> bool { let s: &str = "a"; let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{61}"; got == exp }
pub fn s51_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{61}"; got == exp }
pub fn c51_2() -> bool { let s: &str = "abc"; let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{61}\u{62}\u{63}"; got == exp }
pub fn s51_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{61}\u{62}\u{63}"; got == exp }
pub fn c51_3() -> bool { let s: &str = "%a1"; let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{25}\u{61}"; got == exp }
pub fn s51_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{25}\u{61}"; got == exp }
pub fn c51_4() -> bool { let s: &str = "\u{e9}%x"; let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{e9}\u{25}\u{78}"; got == exp }
pub fn s51_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{e9}\u{25}\u{78}"; got == exp }
pub fn c51_5() -> bool { let s: &str = "a:b:c"; let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{61}\u{3a}\u{62}\u{3a}\u{63}"; got == exp }
pub fn s51_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{61}\u{3a}\u{62}\u{3a}\u{63}"; got == exp }
pub fn c51_6() -> bool { let s: &str = "::"; let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{3a}\u{3a}"; got == exp }
pub fn s51_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{3a}\u{3a}"; got == exp }
pub fn c51_7() -> bool { let s: &str = "  x "; let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{20}\u{20}\u{78}\u{20}"; got == exp }
pub fn s51_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{20}\u{20}\u{78}\u{20}"; got == exp }
pub fn c51_8() -> bool { let s: &str = "12"; let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = ""; got == exp }
pub fn s51_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = ""; got == exp }
pub fn c51_9() -> bool { let s: &str = "-5"; let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{2d}"; got == exp }
pub fn s51_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{2d}"; got == exp }
pub fn c51_10() -> bool { let s: &str = "+7"; let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{2b}"; got == exp }
pub fn s51_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{2b}"; got == exp }
pub fn c51_11() -> bool { let s: &str = "99999999999999999999"; let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = ""; got == exp }
pub fn s51_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = ""; got == exp }
pub fn c51_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"; got == exp }
pub fn s51_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"; got == exp }
pub fn c51_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{65e5}\u{672c}"; got == exp }
pub fn s51_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{65e5}\u{672c}"; got == exp }
pub fn c51_14() -> bool { let s: &str = "\u{1f600}z"; let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{1f600}\u{7a}"; got == exp }
pub fn s51_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{1f600}\u{7a}"; got == exp }
pub fn c51_15() -> bool { let s: &str = "xx"; let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{78}\u{78}"; got == exp }
pub fn s51_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: &str = s.trim_end_matches(|c: char| c.is_numeric()); let exp: &str = "\u{78}\u{78}"; got == exp }
pub fn c52_0() -> bool { let s: &str = ""; let got: String = s.to_string(); let exp: String = String::from(""); got == exp }
pub fn s52_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = s.to_string(); let exp: String = String::from(""); got == exp }
pub fn c52_1() -> bool { let s: &str = "a"; let got: String = s.to_string(); let exp: String = String::from("\u{61}"); got == exp }
pub fn s52_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = s.to_string(); let exp: String = String::from("\u{61}"); got == exp }
pub fn c52_2() -> bool { let s: &str = "abc"; let got: String = s.to_string(); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn s52_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = s.to_string(); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn c52_3() -> bool { let s: &str = "%a1"; let got: String = s.to_string(); let exp: String = String::from("\u{25}\u{61}\u{31}"); got == exp }
pub fn s52_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = s.to_string(); let exp: String = String::from("\u{25}\u{61}\u{31}"); got == exp }
pub fn c52_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = s.to_string(); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s52_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = s.to_string(); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c52_5() -> bool { let s: &str = "a:b:c"; let got: String = s.to_string(); let exp: String = String::from("\u{61}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn s52_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = s.to_string(); let exp: String = String::from("\u{61}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn c52_6() -> bool { let s: &str = "::"; let got: String = s.to_string(); let exp: String = String::from("\u{3a}\u{3a}"); got == exp }
pub fn s52_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = s.to_string(); let exp: String = String::from("\u{3a}\u{3a}"); got == exp }
pub fn c52_7() -> bool { let s: &str = "  x "; let got: String = s.to_string(); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s52_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = s.to_string(); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c52_8() -> bool { let s: &str = "12"; let got: String = s.to_string(); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn s52_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = s.to_string(); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn c52_9() -> bool { let s: &str = "-5"; let got: String = s.to_string(); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn s52_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = s.to_string(); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn c52_10() -> bool { let s: &str = "+7"; let got: String = s.to_string(); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn s52_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = s.to_string(); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn c52_11() -> bool { let s: &str = "99999999999999999999"; let got: String = s.to_string(); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s52_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = s.to_string(); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c52_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = s.to_string(); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s52_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = s.to_string(); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c52_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = s.to_string(); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn s52_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = s.to_string(); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn c52_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = s.to_string(); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn s52_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = s.to_string(); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn c52_15() -> bool { let s: &str = "xx"; let got: String = s.to_string(); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn s52_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = s.to_string(); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn c53_0() -> bool { let s: &str = ""; let got: String = s.to_owned(); let exp: String = String::from(""); got == exp }
pub fn s53_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = s.to_owned(); let exp: String = String::from(""); got == exp }
pub fn c53_1() -> bool { let s: &str = "a"; let got: String = s.to_owned(); let exp: String = String::from("\u{61}"); got == exp }
pub fn s53_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = s.to_owned(); let exp: String = String::from("\u{61}"); got == exp }
pub fn c53_2() -> bool { let s: &str = "abc"; let got: String = s.to_owned(); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn s53_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = s.to_owned(); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn c53_3() -> bool { let s: &str = "%a1"; let got: String = s.to_owned(); let exp: String = String::from("\u{25}\u{61}\u{31}"); got == exp }
pub fn s53_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = s.to_owned(); let exp: String = String::from("\u{25}\u{61}\u{31}"); got == exp }
pub fn c53_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = s.to_owned(); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s53_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = s.to_owned(); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c53_5() -> bool { let s: &str = "a:b:c"; let got: String = s.to_owned(); let exp: String = String::from("\u{61}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn s53_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = s.to_owned(); let exp: String = String::from("\u{61}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn c53_6() -> bool { let s: &str = "::"; let got: String = s.to_owned(); let exp: String = String::from("\u{3a}\u{3a}"); got == exp }
pub fn s53_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = s.to_owned(); let exp: String = String::from("\u{3a}\u{3a}"); got == exp }
pub fn c53_7() -> bool { let s: &str = "  x "; let got: String = s.to_owned(); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s53_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = s.to_owned(); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c53_8() -> bool { let s: &str = "12"; let got: String = s.to_owned(); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn s53_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = s.to_owned(); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn c53_9() -> bool { let s: &str = "-5"; let got: String = s.to_owned(); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn s53_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = s.to_owned(); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn c53_10() -> bool { let s: &str = "+7"; let got: String = s.to_owned(); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn s53_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = s.to_owned(); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn c53_11() -> bool { let s: &str = "99999999999999999999"; let got: String = s.to_owned(); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s53_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = s.to_owned(); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c53_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = s.to_owned(); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s53_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = s.to_owned(); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c53_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = s.to_owned(); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn s53_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = s.to_owned(); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn c53_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = s.to_owned(); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn s53_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = s.to_owned(); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn c53_15() -> bool { let s: &str = "xx"; let got: String = s.to_owned(); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn s53_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = s.to_owned(); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn c54_0() -> bool { let s: &str = ""; let got: String = String::from(s); let exp: String = String::from(""); got == exp }
pub fn s54_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = String::from(s); let exp: String = String::from(""); got == exp }
pub fn c54_1() -> bool { let s: &str = "a"; let got: String = String::from(s); let exp: String = String::from("\u{61}"); got == exp }
pub fn s54_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = String::from(s); let exp: String = String::from("\u{61}"); got == exp }
pub fn c54_2() -> bool { let s: &str = "abc"; let got: String = String::from(s); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn s54_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = String::from(s); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn c54_3() -> bool { let s: &str = "%a1"; let got: String = String::from(s); let exp: String = String::from("\u{25}\u{61}\u{31}"); got == exp }
pub fn s54_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = String::from(s); let exp: String = String::from("\u{25}\u{61}\u{31}"); got == exp }
pub fn c54_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = String::from(s); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s54_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = String::from(s); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c54_5() -> bool { let s: &str = "a:b:c"; let got: String = String::from(s); let exp: String = String::from("\u{61}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn s54_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = String::from(s); let exp: String = String::from("\u{61}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn c54_6() -> bool { let s: &str = "::"; let got: String = String::from(s); let exp: String = String::from("\u{3a}\u{3a}"); got == exp }
pub fn s54_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = String::from(s); let exp: String = String::from("\u{3a}\u{3a}"); got == exp }
pub fn c54_7() -> bool { let s: &str = "  x "; let got: String = String::from(s); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s54_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = String::from(s); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c54_8() -> bool { let s: &str = "12"; let got: String = String::from(s); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn s54_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = String::from(s); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn c54_9() -> bool { let s: &str = "-5"; let got: String = String::from(s); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn s54_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = String::from(s); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn c54_10() -> bool { let s: &str = "+7"; let got: String = String::from(s); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn s54_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = String::from(s); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn c54_11() -> bool { let s: &str = "99999999999999999999"; let got: String = String::from(s); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s54_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = String::from(s); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c54_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = String::from(s); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s54_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = String::from(s); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c54_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = String::from(s); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn s54_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = String::from(s); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn c54_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = String::from(s); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn s54_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = String::from(s); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn c54_15() -> bool { let s: &str = "xx"; let got: String = String::from(s); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn s54_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = String::from(s); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn c55_0() -> bool { let s: &str = ""; let got: String = s.replace('a', "zz"); let exp: String = String::from(""); got == exp }
pub fn s55_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = s.replace('a', "zz"); let exp: String = String::from(""); got == exp }
pub fn c55_1() -> bool { let s: &str = "a"; let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{7a}\u{7a}"); got == exp }
pub fn s55_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{7a}\u{7a}"); got == exp }
pub fn c55_2() -> bool { let s: &str = "abc"; let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{7a}\u{7a}\u{62}\u{63}"); got == exp }
pub fn s55_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{7a}\u{7a}\u{62}\u{63}"); got == exp }
pub fn c55_3() -> bool { let s: &str = "%a1"; let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{25}\u{7a}\u{7a}\u{31}"); got == exp }
pub fn s55_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{25}\u{7a}\u{7a}\u{31}"); got == exp }
pub fn c55_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s55_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c55_5() -> bool { let s: &str = "a:b:c"; let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{7a}\u{7a}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn s55_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{7a}\u{7a}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn c55_6() -> bool { let s: &str = "::"; let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{3a}\u{3a}"); got == exp }
pub fn s55_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{3a}\u{3a}"); got == exp }
pub fn c55_7() -> bool { let s: &str = "  x "; let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s55_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c55_8() -> bool { let s: &str = "12"; let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn s55_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn c55_9() -> bool { let s: &str = "-5"; let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn s55_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn c55_10() -> bool { let s: &str = "+7"; let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn s55_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn c55_11() -> bool { let s: &str = "99999999999999999999"; let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s55_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c55_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{7a}\u{7a}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s55_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{7a}\u{7a}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c55_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn s55_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn c55_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn s55_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn c55_15() -> bool { let s: &str = "xx"; let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn s55_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = s.replace('a', "zz"); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn c56_0() -> bool { let s: &str = ""; let got: String = s.replace("a", ""); let exp: String = String::from(""); got == exp }
pub fn s56_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = s.replace("a", ""); let exp: String = String::from(""); got == exp }
pub fn c56_1() -> bool { let s: &str = "a"; let got: String = s.replace("a", ""); let exp: String = String::from(""); got == exp }
pub fn s56_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = s.replace("a", ""); let exp: String = String::from(""); got == exp }
pub fn c56_2() -> bool { let s: &str = "abc"; let got: String = s.replace("a", ""); let exp: String = String::from("\u{62}\u{63}"); got == exp }
pub fn s56_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = s.replace("a", ""); let exp: String = String::from("\u{62}\u{63}"); got == exp }
pub fn c56_3() -> bool { let s: &str = "%a1"; let got: String = s.replace("a", ""); let exp: String = String::from("\u{25}\u{31}"); got == exp }
pub fn s56_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = s.replace("a", ""); let exp: String = String::from("\u{25}\u{31}"); got == exp }
pub fn c56_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = s.replace("a", ""); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s56_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = s.replace("a", ""); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c56_5() -> bool { let s: &str = "a:b:c"; let got: String = s.replace("a", ""); let exp: String = String::from("\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn s56_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = s.replace("a", ""); let exp: String = String::from("\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn c56_6() -> bool { let s: &str = "::"; let got: String = s.replace("a", ""); let exp: String = String::from("\u{3a}\u{3a}"); got == exp }
pub fn s56_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = s.replace("a", ""); let exp: String = String::from("\u{3a}\u{3a}"); got == exp }
pub fn c56_7() -> bool { let s: &str = "  x "; let got: String = s.replace("a", ""); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s56_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = s.replace("a", ""); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c56_8() -> bool { let s: &str = "12"; let got: String = s.replace("a", ""); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn s56_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = s.replace("a", ""); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn c56_9() -> bool { let s: &str = "-5"; let got: String = s.replace("a", ""); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn s56_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = s.replace("a", ""); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn c56_10() -> bool { let s: &str = "+7"; let got: String = s.replace("a", ""); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn s56_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = s.replace("a", ""); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn c56_11() -> bool { let s: &str = "99999999999999999999"; let got: String = s.replace("a", ""); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s56_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = s.replace("a", ""); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c56_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = s.replace("a", ""); let exp: String = String::from("\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s56_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = s.replace("a", ""); let exp: String = String::from("\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c56_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = s.replace("a", ""); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn s56_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = s.replace("a", ""); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn c56_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = s.replace("a", ""); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn s56_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = s.replace("a", ""); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn c56_15() -> bool { let s: &str = "xx"; let got: String = s.replace("a", ""); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn s56_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = s.replace("a", ""); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn c57_0() -> bool { let s: &str = ""; let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{3e}"); got == exp }
pub fn s57_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{3e}"); got == exp }
pub fn c57_1() -> bool { let s: &str = "a"; let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{61}\u{3e}"); got == exp }
pub fn s57_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{61}\u{3e}"); got == exp }
pub fn c57_2() -> bool { let s: &str = "abc"; let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{61}\u{62}\u{63}\u{3e}"); got == exp }
pub fn s57_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{61}\u{62}\u{63}\u{3e}"); got == exp }
pub fn c57_3() -> bool { let s: &str = "%a1"; let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{25}\u{61}\u{31}\u{3e}"); got == exp }
pub fn s57_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{25}\u{61}\u{31}\u{3e}"); got == exp }
pub fn c57_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{e9}\u{25}\u{78}\u{3e}"); got == exp }
pub fn s57_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{e9}\u{25}\u{78}\u{3e}"); got == exp }
pub fn c57_5() -> bool { let s: &str = "a:b:c"; let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{61}\u{3a}\u{62}\u{3a}\u{63}\u{3e}"); got == exp }
pub fn s57_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{61}\u{3a}\u{62}\u{3a}\u{63}\u{3e}"); got == exp }
pub fn c57_6() -> bool { let s: &str = "::"; let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{3a}\u{3a}\u{3e}"); got == exp }
pub fn s57_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{3a}\u{3a}\u{3e}"); got == exp }
pub fn c57_7() -> bool { let s: &str = "  x "; let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{20}\u{20}\u{78}\u{20}\u{3e}"); got == exp }
pub fn s57_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{20}\u{20}\u{78}\u{20}\u{3e}"); got == exp }
pub fn c57_8() -> bool { let s: &str = "12"; let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{31}\u{32}\u{3e}"); got == exp }
pub fn s57_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{31}\u{32}\u{3e}"); got == exp }
pub fn c57_9() -> bool { let s: &str = "-5"; let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{2d}\u{35}\u{3e}"); got == exp }
pub fn s57_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{2d}\u{35}\u{3e}"); got == exp }
pub fn c57_10() -> bool { let s: &str = "+7"; let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{2b}\u{37}\u{3e}"); got == exp }
pub fn s57_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{2b}\u{37}\u{3e}"); got == exp }
pub fn c57_11() -> bool { let s: &str = "99999999999999999999"; let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{3e}"); got == exp }
pub fn s57_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{3e}"); got == exp }
pub fn c57_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}\u{3e}"); got == exp }
pub fn s57_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}\u{3e}"); got == exp }
pub fn c57_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{65e5}\u{672c}\u{3e}"); got == exp }
pub fn s57_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{65e5}\u{672c}\u{3e}"); got == exp }
pub fn c57_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{1f600}\u{7a}\u{3e}"); got == exp }
pub fn s57_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{1f600}\u{7a}\u{3e}"); got == exp }
pub fn c57_15() -> bool { let s: &str = "xx"; let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{78}\u{78}\u{3e}"); got == exp }
pub fn s57_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = format!("<{}>", s); let exp: String = String::from("\u{3c}\u{78}\u{78}\u{3e}"); got == exp }
pub fn c58_0() -> bool { let s: &str = ""; let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{3a}\u{30}"); got == exp }
pub fn s58_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{3a}\u{30}"); got == exp }
pub fn c58_1() -> bool { let s: &str = "a"; let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{61}\u{3a}\u{31}"); got == exp }
pub fn s58_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{61}\u{3a}\u{31}"); got == exp }
pub fn c58_2() -> bool { let s: &str = "abc"; let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{61}\u{62}\u{63}\u{3a}\u{33}"); got == exp }
pub fn s58_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{61}\u{62}\u{63}\u{3a}\u{33}"); got == exp }
pub fn c58_3() -> bool { let s: &str = "%a1"; let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{25}\u{61}\u{31}\u{3a}\u{33}"); got == exp }
pub fn s58_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{25}\u{61}\u{31}\u{3a}\u{33}"); got == exp }
pub fn c58_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{e9}\u{25}\u{78}\u{3a}\u{34}"); got == exp }
pub fn s58_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{e9}\u{25}\u{78}\u{3a}\u{34}"); got == exp }
pub fn c58_5() -> bool { let s: &str = "a:b:c"; let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{61}\u{3a}\u{62}\u{3a}\u{63}\u{3a}\u{35}"); got == exp }
pub fn s58_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{61}\u{3a}\u{62}\u{3a}\u{63}\u{3a}\u{35}"); got == exp }
pub fn c58_6() -> bool { let s: &str = "::"; let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{3a}\u{3a}\u{3a}\u{32}"); got == exp }
pub fn s58_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{3a}\u{3a}\u{3a}\u{32}"); got == exp }
pub fn c58_7() -> bool { let s: &str = "  x "; let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}\u{3a}\u{34}"); got == exp }
pub fn s58_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}\u{3a}\u{34}"); got == exp }
pub fn c58_8() -> bool { let s: &str = "12"; let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{31}\u{32}\u{3a}\u{32}"); got == exp }
pub fn s58_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{31}\u{32}\u{3a}\u{32}"); got == exp }
pub fn c58_9() -> bool { let s: &str = "-5"; let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{2d}\u{35}\u{3a}\u{32}"); got == exp }
pub fn s58_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{2d}\u{35}\u{3a}\u{32}"); got == exp }
pub fn c58_10() -> bool { let s: &str = "+7"; let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{2b}\u{37}\u{3a}\u{32}"); got == exp }
pub fn s58_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{2b}\u{37}\u{3a}\u{32}"); got == exp }
pub fn c58_11() -> bool { let s: &str = "99999999999999999999"; let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{3a}\u{32}\u{30}"); got == exp }
pub fn s58_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{3a}\u{32}\u{30}"); got == exp }
pub fn c58_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}\u{3a}\u{36}"); got == exp }
pub fn s58_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}\u{3a}\u{36}"); got == exp }
pub fn c58_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{65e5}\u{672c}\u{3a}\u{36}"); got == exp }
pub fn s58_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{65e5}\u{672c}\u{3a}\u{36}"); got == exp }
pub fn c58_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{1f600}\u{7a}\u{3a}\u{35}"); got == exp }
pub fn s58_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{1f600}\u{7a}\u{3a}\u{35}"); got == exp }
pub fn c58_15() -> bool { let s: &str = "xx"; let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{78}\u{78}\u{3a}\u{32}"); got == exp }
pub fn s58_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = format!("{s}:{}", s.len()); let exp: String = String::from("\u{78}\u{78}\u{3a}\u{32}"); got == exp }
pub fn c59_0() -> bool { let s: &str = ""; let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from(""); got == exp }
pub fn s59_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from(""); got == exp }
pub fn c59_1() -> bool { let s: &str = "a"; let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from(""); got == exp }
pub fn s59_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from(""); got == exp }
pub fn c59_2() -> bool { let s: &str = "abc"; let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{62}\u{63}"); got == exp }
pub fn s59_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{62}\u{63}"); got == exp }
pub fn c59_3() -> bool { let s: &str = "%a1"; let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{25}\u{31}"); got == exp }
pub fn s59_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{25}\u{31}"); got == exp }
pub fn c59_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s59_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c59_5() -> bool { let s: &str = "a:b:c"; let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn s59_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn c59_6() -> bool { let s: &str = "::"; let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{3a}\u{3a}"); got == exp }
pub fn s59_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{3a}\u{3a}"); got == exp }
pub fn c59_7() -> bool { let s: &str = "  x "; let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s59_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c59_8() -> bool { let s: &str = "12"; let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn s59_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn c59_9() -> bool { let s: &str = "-5"; let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn s59_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn c59_10() -> bool { let s: &str = "+7"; let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn s59_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn c59_11() -> bool { let s: &str = "99999999999999999999"; let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s59_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c59_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s59_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c59_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn s59_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn c59_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn s59_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn c59_15() -> bool { let s: &str = "xx"; let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn s59_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = s.chars().filter(|c| *c != 'a').collect::<String>(); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn c60_0() -> bool { let s: &str = ""; let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from(""); got == exp }
pub fn s60_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from(""); got == exp }
pub fn c60_1() -> bool { let s: &str = "a"; let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{61}"); got == exp }
pub fn s60_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{61}"); got == exp }
pub fn c60_2() -> bool { let s: &str = "abc"; let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{61}\u{62}"); got == exp }
pub fn s60_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{61}\u{62}"); got == exp }
pub fn c60_3() -> bool { let s: &str = "%a1"; let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{25}\u{61}"); got == exp }
pub fn s60_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{25}\u{61}"); got == exp }
pub fn c60_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{e9}\u{25}"); got == exp }
pub fn s60_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{e9}\u{25}"); got == exp }
pub fn c60_5() -> bool { let s: &str = "a:b:c"; let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{61}\u{3a}"); got == exp }
pub fn s60_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{61}\u{3a}"); got == exp }
pub fn c60_6() -> bool { let s: &str = "::"; let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{3a}\u{3a}"); got == exp }
pub fn s60_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{3a}\u{3a}"); got == exp }
pub fn c60_7() -> bool { let s: &str = "  x "; let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{20}\u{20}"); got == exp }
pub fn s60_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{20}\u{20}"); got == exp }
pub fn c60_8() -> bool { let s: &str = "12"; let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn s60_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn c60_9() -> bool { let s: &str = "-5"; let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn s60_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn c60_10() -> bool { let s: &str = "+7"; let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn s60_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn c60_11() -> bool { let s: &str = "99999999999999999999"; let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{39}\u{39}"); got == exp }
pub fn s60_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{39}\u{39}"); got == exp }
pub fn c60_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{61}\u{a}"); got == exp }
pub fn s60_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{61}\u{a}"); got == exp }
pub fn c60_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn s60_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn c60_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn s60_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn c60_15() -> bool { let s: &str = "xx"; let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn s60_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = s.chars().take(2).collect::<String>(); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn c61_0() -> bool { let s: &str = ""; let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from(""); got == exp }
pub fn s61_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from(""); got == exp }
pub fn c61_1() -> bool { let s: &str = "a"; let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from(""); got == exp }
pub fn s61_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from(""); got == exp }
pub fn c61_2() -> bool { let s: &str = "abc"; let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{62}\u{63}"); got == exp }
pub fn s61_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{62}\u{63}"); got == exp }
pub fn c61_3() -> bool { let s: &str = "%a1"; let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{61}\u{31}"); got == exp }
pub fn s61_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{61}\u{31}"); got == exp }
pub fn c61_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{25}\u{78}"); got == exp }
pub fn s61_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{25}\u{78}"); got == exp }
pub fn c61_5() -> bool { let s: &str = "a:b:c"; let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn s61_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn c61_6() -> bool { let s: &str = "::"; let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{3a}"); got == exp }
pub fn s61_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{3a}"); got == exp }
pub fn c61_7() -> bool { let s: &str = "  x "; let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{20}\u{78}\u{20}"); got == exp }
pub fn s61_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{20}\u{78}\u{20}"); got == exp }
pub fn c61_8() -> bool { let s: &str = "12"; let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{32}"); got == exp }
pub fn s61_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{32}"); got == exp }
pub fn c61_9() -> bool { let s: &str = "-5"; let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{35}"); got == exp }
pub fn s61_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{35}"); got == exp }
pub fn c61_10() -> bool { let s: &str = "+7"; let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{37}"); got == exp }
pub fn s61_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{37}"); got == exp }
pub fn c61_11() -> bool { let s: &str = "99999999999999999999"; let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s61_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c61_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s61_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c61_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{672c}"); got == exp }
pub fn s61_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{672c}"); got == exp }
pub fn c61_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{7a}"); got == exp }
pub fn s61_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{7a}"); got == exp }
pub fn c61_15() -> bool { let s: &str = "xx"; let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{78}"); got == exp }
pub fn s61_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = s.chars().skip(1).collect::<String>(); let exp: String = String::from("\u{78}"); got == exp }
pub fn c62_0() -> bool { let s: &str = ""; let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from(""); got == exp }
pub fn s62_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from(""); got == exp }
pub fn c62_1() -> bool { let s: &str = "a"; let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{61}"); got == exp }
pub fn s62_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{61}"); got == exp }
pub fn c62_2() -> bool { let s: &str = "abc"; let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn s62_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn c62_3() -> bool { let s: &str = "%a1"; let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{25}\u{61}\u{31}"); got == exp }
pub fn s62_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{25}\u{61}\u{31}"); got == exp }
pub fn c62_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s62_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c62_5() -> bool { let s: &str = "a:b:c"; let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{61}\u{2e}\u{62}\u{2e}\u{63}"); got == exp }
pub fn s62_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{61}\u{2e}\u{62}\u{2e}\u{63}"); got == exp }
pub fn c62_6() -> bool { let s: &str = "::"; let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{2e}\u{2e}"); got == exp }
pub fn s62_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{2e}\u{2e}"); got == exp }
pub fn c62_7() -> bool { let s: &str = "  x "; let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s62_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c62_8() -> bool { let s: &str = "12"; let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn s62_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn c62_9() -> bool { let s: &str = "-5"; let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn s62_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn c62_10() -> bool { let s: &str = "+7"; let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn s62_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn c62_11() -> bool { let s: &str = "99999999999999999999"; let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s62_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c62_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s62_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c62_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn s62_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn c62_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn s62_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn c62_15() -> bool { let s: &str = "xx"; let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn s62_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>(); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn c63_0() -> bool { let s: &str = ""; let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from(""); got == exp }
pub fn s63_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from(""); got == exp }
pub fn c63_1() -> bool { let s: &str = "a"; let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{61}"); got == exp }
pub fn s63_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{61}"); got == exp }
pub fn c63_2() -> bool { let s: &str = "abc"; let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{61}\u{5c}\u{62}\u{63}"); got == exp }
pub fn s63_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{61}\u{5c}\u{62}\u{63}"); got == exp }
pub fn c63_3() -> bool { let s: &str = "%a1"; let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{25}\u{61}\u{31}"); got == exp }
pub fn s63_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{25}\u{61}\u{31}"); got == exp }
pub fn c63_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s63_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c63_5() -> bool { let s: &str = "a:b:c"; let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{61}\u{3a}\u{5c}\u{62}\u{3a}\u{63}"); got == exp }
pub fn s63_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{61}\u{3a}\u{5c}\u{62}\u{3a}\u{63}"); got == exp }
pub fn c63_6() -> bool { let s: &str = "::"; let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{3a}\u{3a}"); got == exp }
pub fn s63_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{3a}\u{3a}"); got == exp }
pub fn c63_7() -> bool { let s: &str = "  x "; let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s63_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c63_8() -> bool { let s: &str = "12"; let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn s63_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn c63_9() -> bool { let s: &str = "-5"; let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn s63_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn c63_10() -> bool { let s: &str = "+7"; let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn s63_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn c63_11() -> bool { let s: &str = "99999999999999999999"; let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s63_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c63_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{61}\u{a}\u{5c}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s63_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{61}\u{a}\u{5c}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c63_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn s63_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn c63_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn s63_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn c63_15() -> bool { let s: &str = "xx"; let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn s63_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r }; let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn c64_0() -> bool { let s: &str = ""; let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{78}\u{79}\u{7a}"); got == exp }
pub fn s64_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{78}\u{79}\u{7a}"); got == exp }
pub fn c64_1() -> bool { let s: &str = "a"; let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{61}\u{78}\u{79}\u{7a}"); got == exp }
pub fn s64_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{61}\u{78}\u{79}\u{7a}"); got == exp }
pub fn c64_2() -> bool { let s: &str = "abc"; let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{61}\u{62}\u{63}\u{78}\u{79}\u{7a}"); got == exp }
pub fn s64_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{61}\u{62}\u{63}\u{78}\u{79}\u{7a}"); got == exp }
pub fn c64_3() -> bool { let s: &str = "%a1"; let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{25}\u{61}\u{31}\u{78}\u{79}\u{7a}"); got == exp }
pub fn s64_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{25}\u{61}\u{31}\u{78}\u{79}\u{7a}"); got == exp }
pub fn c64_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{e9}\u{25}\u{78}\u{78}\u{79}\u{7a}"); got == exp }
pub fn s64_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{e9}\u{25}\u{78}\u{78}\u{79}\u{7a}"); got == exp }
pub fn c64_5() -> bool { let s: &str = "a:b:c"; let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{61}\u{3a}\u{62}\u{3a}\u{63}\u{78}\u{79}\u{7a}"); got == exp }
pub fn s64_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{61}\u{3a}\u{62}\u{3a}\u{63}\u{78}\u{79}\u{7a}"); got == exp }
pub fn c64_6() -> bool { let s: &str = "::"; let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{3a}\u{3a}\u{78}\u{79}\u{7a}"); got == exp }
pub fn s64_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{3a}\u{3a}\u{78}\u{79}\u{7a}"); got == exp }
pub fn c64_7() -> bool { let s: &str = "  x "; let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}\u{78}\u{79}\u{7a}"); got == exp }
pub fn s64_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}\u{78}\u{79}\u{7a}"); got == exp }
pub fn c64_8() -> bool { let s: &str = "12"; let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{31}\u{32}\u{78}\u{79}\u{7a}"); got == exp }
pub fn s64_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{31}\u{32}\u{78}\u{79}\u{7a}"); got == exp }
pub fn c64_9() -> bool { let s: &str = "-5"; let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{2d}\u{35}\u{78}\u{79}\u{7a}"); got == exp }
pub fn s64_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{2d}\u{35}\u{78}\u{79}\u{7a}"); got == exp }
pub fn c64_10() -> bool { let s: &str = "+7"; let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{2b}\u{37}\u{78}\u{79}\u{7a}"); got == exp }
pub fn s64_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{2b}\u{37}\u{78}\u{79}\u{7a}"); got == exp }
pub fn c64_11() -> bool { let s: &str = "99999999999999999999"; let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{78}\u{79}\u{7a}"); got == exp }
pub fn s64_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{78}\u{79}\u{7a}"); got == exp }
pub fn c64_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}\u{78}\u{79}\u{7a}"); got == exp }
pub fn s64_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}\u{78}\u{79}\u{7a}"); got == exp }
pub fn c64_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{65e5}\u{672c}\u{78}\u{79}\u{7a}"); got == exp }
pub fn s64_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{65e5}\u{672c}\u{78}\u{79}\u{7a}"); got == exp }
pub fn c64_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{1f600}\u{7a}\u{78}\u{79}\u{7a}"); got == exp }
pub fn s64_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{1f600}\u{7a}\u{78}\u{79}\u{7a}"); got == exp }
pub fn c64_15() -> bool { let s: &str = "xx"; let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{78}\u{78}\u{78}\u{79}\u{7a}"); got == exp }
pub fn s64_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r }; let exp: String = String::from("\u{78}\u{78}\u{78}\u{79}\u{7a}"); got == exp }
pub fn c65_0() -> bool { let s: &str = ""; let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from(""); got == exp }
pub fn s65_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from(""); got == exp }
pub fn c65_1() -> bool { let s: &str = "a"; let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{61}"); got == exp }
pub fn s65_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{61}"); got == exp }
pub fn c65_2() -> bool { let s: &str = "abc"; let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn s65_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn c65_3() -> bool { let s: &str = "%a1"; let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{25}\u{61}\u{31}"); got == exp }
pub fn s65_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{25}\u{61}\u{31}"); got == exp }
pub fn c65_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s65_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c65_5() -> bool { let s: &str = "a:b:c"; let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{61}\u{2d}\u{62}\u{2d}\u{63}"); got == exp }
pub fn s65_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{61}\u{2d}\u{62}\u{2d}\u{63}"); got == exp }
pub fn c65_6() -> bool { let s: &str = "::"; let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{2d}\u{2d}"); got == exp }
pub fn s65_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{2d}\u{2d}"); got == exp }
pub fn c65_7() -> bool { let s: &str = "  x "; let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s65_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c65_8() -> bool { let s: &str = "12"; let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn s65_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn c65_9() -> bool { let s: &str = "-5"; let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn s65_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn c65_10() -> bool { let s: &str = "+7"; let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn s65_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn c65_11() -> bool { let s: &str = "99999999999999999999"; let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s65_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c65_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s65_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c65_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn s65_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn c65_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn s65_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn c65_15() -> bool { let s: &str = "xx"; let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn s65_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-"); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn c66_0() -> bool { let s: &str = ""; let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from(""); got == exp }
pub fn s66_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from(""); got == exp }
pub fn c66_1() -> bool { let s: &str = "a"; let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{61}"); got == exp }
pub fn s66_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{61}"); got == exp }
pub fn c66_2() -> bool { let s: &str = "abc"; let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn s66_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn c66_3() -> bool { let s: &str = "%a1"; let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{25}\u{61}\u{31}"); got == exp }
pub fn s66_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{25}\u{61}\u{31}"); got == exp }
pub fn c66_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s66_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c66_5() -> bool { let s: &str = "a:b:c"; let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn s66_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn c66_6() -> bool { let s: &str = "::"; let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from(""); got == exp }
pub fn s66_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from(""); got == exp }
pub fn c66_7() -> bool { let s: &str = "  x "; let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s66_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c66_8() -> bool { let s: &str = "12"; let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn s66_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn c66_9() -> bool { let s: &str = "-5"; let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn s66_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn c66_10() -> bool { let s: &str = "+7"; let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn s66_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn c66_11() -> bool { let s: &str = "99999999999999999999"; let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s66_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c66_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s66_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c66_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn s66_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn c66_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn s66_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn c66_15() -> bool { let s: &str = "xx"; let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn s66_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = s.split(':').collect::<Vec<_>>().concat(); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn c67_0() -> bool { let s: &str = ""; let got: String = s.to_lowercase(); let exp: String = String::from(""); got == exp }
pub fn s67_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = s.to_lowercase(); let exp: String = String::from(""); got == exp }
pub fn c67_1() -> bool { let s: &str = "a"; let got: String = s.to_lowercase(); let exp: String = String::from("\u{61}"); got == exp }
pub fn s67_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = s.to_lowercase(); let exp: String = String::from("\u{61}"); got == exp }
pub fn c67_2() -> bool { let s: &str = "abc"; let got: String = s.to_lowercase(); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn s67_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = s.to_lowercase(); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn c67_3() -> bool { let s: &str = "%a1"; let got: String = s.to_lowercase(); let exp: String = String::from("\u{25}\u{61}\u{31}"); got == exp }
pub fn s67_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = s.to_lowercase(); let exp: String = String::from("\u{25}\u{61}\u{31}"); got == exp }
pub fn c67_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = s.to_lowercase(); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s67_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = s.to_lowercase(); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c67_5() -> bool { let s: &str = "a:b:c"; let got: String = s.to_lowercase(); let exp: String = String::from("\u{61}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn s67_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = s.to_lowercase(); let exp: String = String::from("\u{61}\u{3a}\u{62}\u{3a}\u{63}"); got == exp }
pub fn c67_6() -> bool { let s: &str = "::"; let got: String = s.to_lowercase(); let exp: String = String::from("\u{3a}\u{3a}"); got == exp }
pub fn s67_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = s.to_lowercase(); let exp: String = String::from("\u{3a}\u{3a}"); got == exp }
pub fn c67_7() -> bool { let s: &str = "  x "; let got: String = s.to_lowercase(); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s67_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = s.to_lowercase(); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c67_8() -> bool { let s: &str = "12"; let got: String = s.to_lowercase(); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn s67_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = s.to_lowercase(); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn c67_9() -> bool { let s: &str = "-5"; let got: String = s.to_lowercase(); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn s67_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = s.to_lowercase(); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn c67_10() -> bool { let s: &str = "+7"; let got: String = s.to_lowercase(); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn s67_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = s.to_lowercase(); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn c67_11() -> bool { let s: &str = "99999999999999999999"; let got: String = s.to_lowercase(); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s67_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = s.to_lowercase(); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c67_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = s.to_lowercase(); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s67_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = s.to_lowercase(); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c67_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = s.to_lowercase(); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn s67_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = s.to_lowercase(); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn c67_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = s.to_lowercase(); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn s67_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = s.to_lowercase(); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn c67_15() -> bool { let s: &str = "xx"; let got: String = s.to_lowercase(); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn s67_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = s.to_lowercase(); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn c68_0() -> bool { let s: &str = ""; let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("")]; got == exp }
pub fn s68_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("")]; got == exp }
pub fn c68_1() -> bool { let s: &str = "a"; let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{61}")]; got == exp }
pub fn s68_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{61}")]; got == exp }
pub fn c68_2() -> bool { let s: &str = "abc"; let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{62}\u{63}")]; got == exp }
pub fn s68_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{62}\u{63}")]; got == exp }
pub fn c68_3() -> bool { let s: &str = "%a1"; let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{25}\u{61}\u{31}")]; got == exp }
pub fn s68_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{25}\u{61}\u{31}")]; got == exp }
pub fn c68_4() -> bool { let s: &str = "\u{e9}%x"; let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{e9}\u{25}\u{78}")]; got == exp }
pub fn s68_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{e9}\u{25}\u{78}")]; got == exp }
pub fn c68_5() -> bool { let s: &str = "a:b:c"; let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{61}"), String::from("\u{62}"), String::from("\u{63}")]; got == exp }
pub fn s68_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{61}"), String::from("\u{62}"), String::from("\u{63}")]; got == exp }
pub fn c68_6() -> bool { let s: &str = "::"; let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from(""), String::from(""), String::from("")]; got == exp }
pub fn s68_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from(""), String::from(""), String::from("")]; got == exp }
pub fn c68_7() -> bool { let s: &str = "  x "; let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{20}\u{20}\u{78}\u{20}")]; got == exp }
pub fn s68_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{20}\u{20}\u{78}\u{20}")]; got == exp }
pub fn c68_8() -> bool { let s: &str = "12"; let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{31}\u{32}")]; got == exp }
pub fn s68_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{31}\u{32}")]; got == exp }
pub fn c68_9() -> bool { let s: &str = "-5"; let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{2d}\u{35}")]; got == exp }
pub fn s68_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{2d}\u{35}")]; got == exp }
pub fn c68_10() -> bool { let s: &str = "+7"; let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{2b}\u{37}")]; got == exp }
pub fn s68_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{2b}\u{37}")]; got == exp }
pub fn c68_11() -> bool { let s: &str = "99999999999999999999"; let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}")]; got == exp }
pub fn s68_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}")]; got == exp }
pub fn c68_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}")]; got == exp }
pub fn s68_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}")]; got == exp }
pub fn c68_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{65e5}\u{672c}")]; got == exp }
pub fn s68_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{65e5}\u{672c}")]; got == exp }
pub fn c68_14() -> bool { let s: &str = "\u{1f600}z"; let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{1f600}\u{7a}")]; got == exp }
pub fn s68_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{1f600}\u{7a}")]; got == exp }
pub fn c68_15() -> bool { let s: &str = "xx"; let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{78}\u{78}")]; got == exp }
pub fn s68_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Vec<String> = s.split(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{78}\u{78}")]; got == exp }
pub fn c69_0() -> bool { let s: &str = ""; let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("")]; got == exp }
pub fn s69_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("")]; got == exp }
pub fn c69_1() -> bool { let s: &str = "a"; let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{61}")]; got == exp }
pub fn s69_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{61}")]; got == exp }
pub fn c69_2() -> bool { let s: &str = "abc"; let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{62}\u{63}")]; got == exp }
pub fn s69_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{62}\u{63}")]; got == exp }
pub fn c69_3() -> bool { let s: &str = "%a1"; let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{25}\u{61}\u{31}")]; got == exp }
pub fn s69_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{25}\u{61}\u{31}")]; got == exp }
pub fn c69_4() -> bool { let s: &str = "\u{e9}%x"; let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{e9}\u{25}\u{78}")]; got == exp }
pub fn s69_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{e9}\u{25}\u{78}")]; got == exp }
pub fn c69_5() -> bool { let s: &str = "a:b:c"; let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{63}"), String::from("\u{62}"), String::from("\u{61}")]; got == exp }
pub fn s69_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{63}"), String::from("\u{62}"), String::from("\u{61}")]; got == exp }
pub fn c69_6() -> bool { let s: &str = "::"; let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from(""), String::from(""), String::from("")]; got == exp }
pub fn s69_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from(""), String::from(""), String::from("")]; got == exp }
pub fn c69_7() -> bool { let s: &str = "  x "; let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{20}\u{20}\u{78}\u{20}")]; got == exp }
pub fn s69_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{20}\u{20}\u{78}\u{20}")]; got == exp }
pub fn c69_8() -> bool { let s: &str = "12"; let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{31}\u{32}")]; got == exp }
pub fn s69_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{31}\u{32}")]; got == exp }
pub fn c69_9() -> bool { let s: &str = "-5"; let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{2d}\u{35}")]; got == exp }
pub fn s69_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{2d}\u{35}")]; got == exp }
pub fn c69_10() -> bool { let s: &str = "+7"; let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{2b}\u{37}")]; got == exp }
pub fn s69_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{2b}\u{37}")]; got == exp }
pub fn c69_11() -> bool { let s: &str = "99999999999999999999"; let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}")]; got == exp }
pub fn s69_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}")]; got == exp }
pub fn c69_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}")]; got == exp }
pub fn s69_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}")]; got == exp }
pub fn c69_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{65e5}\u{672c}")]; got == exp }
pub fn s69_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{65e5}\u{672c}")]; got == exp }
pub fn c69_14() -> bool { let s: &str = "\u{1f600}z"; let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{1f600}\u{7a}")]; got == exp }
pub fn s69_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{1f600}\u{7a}")]; got == exp }
pub fn c69_15() -> bool { let s: &str = "xx"; let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{78}\u{78}")]; got == exp }
pub fn s69_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Vec<String> = s.rsplit(':').map(|x| x.to_string()).collect(); let exp: Vec<String> = vec![String::from("\u{78}\u{78}")]; got == exp }
pub fn c70_0() -> bool { let s: &str = ""; let p: &str = "a"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("")]; got == exp }
pub fn s70_0(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "a") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("")]; got == exp }
pub fn c70_1() -> bool { let s: &str = ""; let p: &str = ":"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("")]; got == exp }
pub fn s70_1(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == ":") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("")]; got == exp }
pub fn c70_2() -> bool { let s: &str = ""; let p: &str = "x"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("")]; got == exp }
pub fn s70_2(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "x") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("")]; got == exp }
pub fn c70_3() -> bool { let s: &str = ""; let p: &str = "b:"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("")]; got == exp }
pub fn s70_3(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "b:") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("")]; got == exp }
pub fn c70_4() -> bool { let s: &str = ""; let p: &str = "zz"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("")]; got == exp }
pub fn s70_4(s: &'static str, p: &'static str) -> bool { if !(s == "" && p == "zz") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("")]; got == exp }
pub fn c70_5() -> bool { let s: &str = "a"; let p: &str = "a"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from(""), String::from("")]; got == exp }
pub fn s70_5(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "a") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from(""), String::from("")]; got == exp }
pub fn c70_6() -> bool { let s: &str = "a"; let p: &str = ":"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}")]; got == exp }
pub fn s70_6(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == ":") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}")]; got == exp }
pub fn c70_7() -> bool { let s: &str = "a"; let p: &str = "x"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}")]; got == exp }
pub fn s70_7(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "x") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}")]; got == exp }
pub fn c70_8() -> bool { let s: &str = "a"; let p: &str = "b:"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}")]; got == exp }
pub fn s70_8(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "b:") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}")]; got == exp }
pub fn c70_9() -> bool { let s: &str = "a"; let p: &str = "zz"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}")]; got == exp }
pub fn s70_9(s: &'static str, p: &'static str) -> bool { if !(s == "a" && p == "zz") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}")]; got == exp }
pub fn c70_10() -> bool { let s: &str = "abc"; let p: &str = "a"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from(""), String::from("\u{62}\u{63}")]; got == exp }
pub fn s70_10(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "a") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from(""), String::from("\u{62}\u{63}")]; got == exp }
pub fn c70_11() -> bool { let s: &str = "abc"; let p: &str = ":"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{62}\u{63}")]; got == exp }
pub fn s70_11(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == ":") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{62}\u{63}")]; got == exp }
pub fn c70_12() -> bool { let s: &str = "abc"; let p: &str = "x"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{62}\u{63}")]; got == exp }
pub fn s70_12(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "x") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{62}\u{63}")]; got == exp }
pub fn c70_13() -> bool { let s: &str = "abc"; let p: &str = "b:"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{62}\u{63}")]; got == exp }
pub fn s70_13(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "b:") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{62}\u{63}")]; got == exp }
pub fn c70_14() -> bool { let s: &str = "abc"; let p: &str = "zz"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{62}\u{63}")]; got == exp }
pub fn s70_14(s: &'static str, p: &'static str) -> bool { if !(s == "abc" && p == "zz") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{62}\u{63}")]; got == exp }
pub fn c70_15() -> bool { let s: &str = "%a1"; let p: &str = "a"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{25}"), String::from("\u{31}")]; got == exp }
pub fn s70_15(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "a") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{25}"), String::from("\u{31}")]; got == exp }
pub fn c70_16() -> bool { let s: &str = "%a1"; let p: &str = ":"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{25}\u{61}\u{31}")]; got == exp }
pub fn s70_16(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == ":") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{25}\u{61}\u{31}")]; got == exp }
pub fn c70_17() -> bool { let s: &str = "%a1"; let p: &str = "x"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{25}\u{61}\u{31}")]; got == exp }
pub fn s70_17(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "x") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{25}\u{61}\u{31}")]; got == exp }
pub fn c70_18() -> bool { let s: &str = "%a1"; let p: &str = "b:"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{25}\u{61}\u{31}")]; got == exp }
pub fn s70_18(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "b:") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{25}\u{61}\u{31}")]; got == exp }
pub fn c70_19() -> bool { let s: &str = "%a1"; let p: &str = "zz"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{25}\u{61}\u{31}")]; got == exp }
pub fn s70_19(s: &'static str, p: &'static str) -> bool { if !(s == "%a1" && p == "zz") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{25}\u{61}\u{31}")]; got == exp }
pub fn c70_20() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "a"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{e9}\u{25}\u{78}")]; got == exp }
pub fn s70_20(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "a") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{e9}\u{25}\u{78}")]; got == exp }
pub fn c70_21() -> bool { let s: &str = "\u{e9}%x"; let p: &str = ":"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{e9}\u{25}\u{78}")]; got == exp }
pub fn s70_21(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == ":") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{e9}\u{25}\u{78}")]; got == exp }
pub fn c70_22() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "x"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{e9}\u{25}"), String::from("")]; got == exp }
pub fn s70_22(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "x") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{e9}\u{25}"), String::from("")]; got == exp }
pub fn c70_23() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "b:"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{e9}\u{25}\u{78}")]; got == exp }
pub fn s70_23(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "b:") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{e9}\u{25}\u{78}")]; got == exp }
pub fn c70_24() -> bool { let s: &str = "\u{e9}%x"; let p: &str = "zz"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{e9}\u{25}\u{78}")]; got == exp }
pub fn s70_24(s: &'static str, p: &'static str) -> bool { if !(s == "\u{e9}%x" && p == "zz") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{e9}\u{25}\u{78}")]; got == exp }
pub fn c70_25() -> bool { let s: &str = "a:b:c"; let p: &str = "a"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from(""), String::from("\u{3a}\u{62}\u{3a}\u{63}")]; got == exp }
pub fn s70_25(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "a") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from(""), String::from("\u{3a}\u{62}\u{3a}\u{63}")]; got == exp }
pub fn c70_26() -> bool { let s: &str = "a:b:c"; let p: &str = ":"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}"), String::from("\u{62}"), String::from("\u{63}")]; got == exp }
pub fn s70_26(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == ":") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}"), String::from("\u{62}"), String::from("\u{63}")]; got == exp }
pub fn c70_27() -> bool { let s: &str = "a:b:c"; let p: &str = "x"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{3a}\u{62}\u{3a}\u{63}")]; got == exp }
pub fn s70_27(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "x") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{3a}\u{62}\u{3a}\u{63}")]; got == exp }
pub fn c70_28() -> bool { let s: &str = "a:b:c"; let p: &str = "b:"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{3a}"), String::from("\u{63}")]; got == exp }
pub fn s70_28(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "b:") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{3a}"), String::from("\u{63}")]; got == exp }
pub fn c70_29() -> bool { let s: &str = "a:b:c"; let p: &str = "zz"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{3a}\u{62}\u{3a}\u{63}")]; got == exp }
pub fn s70_29(s: &'static str, p: &'static str) -> bool { if !(s == "a:b:c" && p == "zz") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{3a}\u{62}\u{3a}\u{63}")]; got == exp }
pub fn c70_30() -> bool { let s: &str = "::"; let p: &str = "a"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{3a}\u{3a}")]; got == exp }
pub fn s70_30(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "a") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{3a}\u{3a}")]; got == exp }
pub fn c70_31() -> bool { let s: &str = "::"; let p: &str = ":"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from(""), String::from(""), String::from("")]; got == exp }
pub fn s70_31(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == ":") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from(""), String::from(""), String::from("")]; got == exp }
pub fn c70_32() -> bool { let s: &str = "::"; let p: &str = "x"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{3a}\u{3a}")]; got == exp }
pub fn s70_32(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "x") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{3a}\u{3a}")]; got == exp }
pub fn c70_33() -> bool { let s: &str = "::"; let p: &str = "b:"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{3a}\u{3a}")]; got == exp }
pub fn s70_33(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "b:") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{3a}\u{3a}")]; got == exp }
pub fn c70_34() -> bool { let s: &str = "::"; let p: &str = "zz"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{3a}\u{3a}")]; got == exp }
pub fn s70_34(s: &'static str, p: &'static str) -> bool { if !(s == "::" && p == "zz") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{3a}\u{3a}")]; got == exp }
pub fn c70_35() -> bool { let s: &str = "  x "; let p: &str = "a"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{20}\u{20}\u{78}\u{20}")]; got == exp }
pub fn s70_35(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "a") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{20}\u{20}\u{78}\u{20}")]; got == exp }
pub fn c70_36() -> bool { let s: &str = "  x "; let p: &str = ":"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{20}\u{20}\u{78}\u{20}")]; got == exp }
pub fn s70_36(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == ":") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{20}\u{20}\u{78}\u{20}")]; got == exp }
pub fn c70_37() -> bool { let s: &str = "  x "; let p: &str = "x"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{20}\u{20}"), String::from("\u{20}")]; got == exp }
pub fn s70_37(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "x") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{20}\u{20}"), String::from("\u{20}")]; got == exp }
pub fn c70_38() -> bool { let s: &str = "  x "; let p: &str = "b:"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{20}\u{20}\u{78}\u{20}")]; got == exp }
pub fn s70_38(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "b:") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{20}\u{20}\u{78}\u{20}")]; got == exp }
pub fn c70_39() -> bool { let s: &str = "  x "; let p: &str = "zz"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{20}\u{20}\u{78}\u{20}")]; got == exp }
pub fn s70_39(s: &'static str, p: &'static str) -> bool { if !(s == "  x " && p == "zz") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{20}\u{20}\u{78}\u{20}")]; got == exp }
pub fn c70_40() -> bool { let s: &str = "12"; let p: &str = "a"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{31}\u{32}")]; got == exp }
pub fn s70_40(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "a") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{31}\u{32}")]; got == exp }
pub fn c70_41() -> bool { let s: &str = "12"; let p: &str = ":"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{31}\u{32}")]; got == exp }
pub fn s70_41(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == ":") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{31}\u{32}")]; got == exp }
pub fn c70_42() -> bool { let s: &str = "12"; let p: &str = "x"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{31}\u{32}")]; got == exp }
pub fn s70_42(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "x") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{31}\u{32}")]; got == exp }
pub fn c70_43() -> bool { let s: &str = "12"; let p: &str = "b:"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{31}\u{32}")]; got == exp }
pub fn s70_43(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "b:") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{31}\u{32}")]; got == exp }
pub fn c70_44() -> bool { let s: &str = "12"; let p: &str = "zz"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{31}\u{32}")]; got == exp }
pub fn s70_44(s: &'static str, p: &'static str) -> bool { if !(s == "12" && p == "zz") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{31}\u{32}")]; got == exp }
pub fn c70_45() -> bool { let s: &str = "-5"; let p: &str = "a"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2d}\u{35}")]; got == exp }
pub fn s70_45(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "a") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2d}\u{35}")]; got == exp }
pub fn c70_46() -> bool { let s: &str = "-5"; let p: &str = ":"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2d}\u{35}")]; got == exp }
pub fn s70_46(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == ":") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2d}\u{35}")]; got == exp }
pub fn c70_47() -> bool { let s: &str = "-5"; let p: &str = "x"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2d}\u{35}")]; got == exp }
pub fn s70_47(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "x") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2d}\u{35}")]; got == exp }
pub fn c70_48() -> bool { let s: &str = "-5"; let p: &str = "b:"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2d}\u{35}")]; got == exp }
pub fn s70_48(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "b:") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2d}\u{35}")]; got == exp }
pub fn c70_49() -> bool { let s: &str = "-5"; let p: &str = "zz"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2d}\u{35}")]; got == exp }
pub fn s70_49(s: &'static str, p: &'static str) -> bool { if !(s == "-5" && p == "zz") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2d}\u{35}")]; got == exp }
pub fn c70_50() -> bool { let s: &str = "+7"; let p: &str = "a"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2b}\u{37}")]; got == exp }
pub fn s70_50(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "a") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2b}\u{37}")]; got == exp }
pub fn c70_51() -> bool { let s: &str = "+7"; let p: &str = ":"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2b}\u{37}")]; got == exp }
pub fn s70_51(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == ":") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2b}\u{37}")]; got == exp }
pub fn c70_52() -> bool { let s: &str = "+7"; let p: &str = "x"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2b}\u{37}")]; got == exp }
pub fn s70_52(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "x") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2b}\u{37}")]; got == exp }
pub fn c70_53() -> bool { let s: &str = "+7"; let p: &str = "b:"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2b}\u{37}")]; got == exp }
pub fn s70_53(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "b:") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2b}\u{37}")]; got == exp }
pub fn c70_54() -> bool { let s: &str = "+7"; let p: &str = "zz"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2b}\u{37}")]; got == exp }
pub fn s70_54(s: &'static str, p: &'static str) -> bool { if !(s == "+7" && p == "zz") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{2b}\u{37}")]; got == exp }
pub fn c70_55() -> bool { let s: &str = "99999999999999999999"; let p: &str = "a"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}")]; got == exp }
pub fn s70_55(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "a") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}")]; got == exp }
pub fn c70_56() -> bool { let s: &str = "99999999999999999999"; let p: &str = ":"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}")]; got == exp }
pub fn s70_56(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == ":") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}")]; got == exp }
pub fn c70_57() -> bool { let s: &str = "99999999999999999999"; let p: &str = "x"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}")]; got == exp }
pub fn s70_57(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "x") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}")]; got == exp }
pub fn c70_58() -> bool { let s: &str = "99999999999999999999"; let p: &str = "b:"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}")]; got == exp }
pub fn s70_58(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "b:") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}")]; got == exp }
pub fn c70_59() -> bool { let s: &str = "99999999999999999999"; let p: &str = "zz"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}")]; got == exp }
pub fn s70_59(s: &'static str, p: &'static str) -> bool { if !(s == "99999999999999999999" && p == "zz") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}")]; got == exp }
pub fn c70_60() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "a"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from(""), String::from("\u{a}\u{62}\u{d}\u{a}\u{63}")]; got == exp }
pub fn s70_60(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "a") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from(""), String::from("\u{a}\u{62}\u{d}\u{a}\u{63}")]; got == exp }
pub fn c70_61() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = ":"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}")]; got == exp }
pub fn s70_61(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == ":") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}")]; got == exp }
pub fn c70_62() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "x"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}")]; got == exp }
pub fn s70_62(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "x") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}")]; got == exp }
pub fn c70_63() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "b:"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}")]; got == exp }
pub fn s70_63(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "b:") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}")]; got == exp }
pub fn c70_64() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let p: &str = "zz"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}")]; got == exp }
pub fn s70_64(s: &'static str, p: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c" && p == "zz") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}")]; got == exp }
pub fn c70_65() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "a"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{65e5}\u{672c}")]; got == exp }
pub fn s70_65(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "a") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{65e5}\u{672c}")]; got == exp }
pub fn c70_66() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = ":"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{65e5}\u{672c}")]; got == exp }
pub fn s70_66(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == ":") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{65e5}\u{672c}")]; got == exp }
pub fn c70_67() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "x"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{65e5}\u{672c}")]; got == exp }
pub fn s70_67(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "x") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{65e5}\u{672c}")]; got == exp }
pub fn c70_68() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "b:"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{65e5}\u{672c}")]; got == exp }
pub fn s70_68(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "b:") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{65e5}\u{672c}")]; got == exp }
pub fn c70_69() -> bool { let s: &str = "\u{65e5}\u{672c}"; let p: &str = "zz"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{65e5}\u{672c}")]; got == exp }
pub fn s70_69(s: &'static str, p: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}" && p == "zz") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{65e5}\u{672c}")]; got == exp }
pub fn c70_70() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "a"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{1f600}\u{7a}")]; got == exp }
pub fn s70_70(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "a") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{1f600}\u{7a}")]; got == exp }
pub fn c70_71() -> bool { let s: &str = "\u{1f600}z"; let p: &str = ":"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{1f600}\u{7a}")]; got == exp }
pub fn s70_71(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == ":") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{1f600}\u{7a}")]; got == exp }
pub fn c70_72() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "x"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{1f600}\u{7a}")]; got == exp }
pub fn s70_72(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "x") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{1f600}\u{7a}")]; got == exp }
pub fn c70_73() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "b:"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{1f600}\u{7a}")]; got == exp }
pub fn s70_73(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "b:") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{1f600}\u{7a}")]; got == exp }
pub fn c70_74() -> bool { let s: &str = "\u{1f600}z"; let p: &str = "zz"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{1f600}\u{7a}")]; got == exp }
pub fn s70_74(s: &'static str, p: &'static str) -> bool { if !(s == "\u{1f600}z" && p == "zz") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{1f600}\u{7a}")]; got == exp }
pub fn c70_75() -> bool { let s: &str = "xx"; let p: &str = "a"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{78}\u{78}")]; got == exp }
pub fn s70_75(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "a") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{78}\u{78}")]; got == exp }
pub fn c70_76() -> bool { let s: &str = "xx"; let p: &str = ":"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{78}\u{78}")]; got == exp }
pub fn s70_76(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == ":") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{78}\u{78}")]; got == exp }
pub fn c70_77() -> bool { let s: &str = "xx"; let p: &str = "x"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from(""), String::from(""), String::from("")]; got == exp }
pub fn s70_77(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "x") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from(""), String::from(""), String::from("")]; got == exp }
pub fn c70_78() -> bool { let s: &str = "xx"; let p: &str = "b:"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{78}\u{78}")]; got == exp }
pub fn s70_78(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "b:") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{78}\u{78}")]; got == exp }
pub fn c70_79() -> bool { let s: &str = "xx"; let p: &str = "zz"; let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{78}\u{78}")]; got == exp }
pub fn s70_79(s: &'static str, p: &'static str) -> bool { if !(s == "xx" && p == "zz") { return true; } let got: Vec<String> = s.split(p).map(String::from).collect(); let exp: Vec<String> = vec![String::from("\u{78}\u{78}")]; got == exp }
pub fn c71_0() -> bool { let s: &str = ""; let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec![]; got == exp }
pub fn s71_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec![]; got == exp }
pub fn c71_1() -> bool { let s: &str = "a"; let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{61}']; got == exp }
pub fn s71_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{61}']; got == exp }
pub fn c71_2() -> bool { let s: &str = "abc"; let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{61}', '\u{62}', '\u{63}']; got == exp }
pub fn s71_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{61}', '\u{62}', '\u{63}']; got == exp }
pub fn c71_3() -> bool { let s: &str = "%a1"; let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{25}', '\u{61}', '\u{31}']; got == exp }
pub fn s71_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{25}', '\u{61}', '\u{31}']; got == exp }
pub fn c71_4() -> bool { let s: &str = "\u{e9}%x"; let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{e9}', '\u{25}', '\u{78}']; got == exp }
pub fn s71_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{e9}', '\u{25}', '\u{78}']; got == exp }
pub fn c71_5() -> bool { let s: &str = "a:b:c"; let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{61}', '\u{3a}', '\u{62}', '\u{3a}', '\u{63}']; got == exp }
pub fn s71_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{61}', '\u{3a}', '\u{62}', '\u{3a}', '\u{63}']; got == exp }
pub fn c71_6() -> bool { let s: &str = "::"; let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{3a}', '\u{3a}']; got == exp }
pub fn s71_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{3a}', '\u{3a}']; got == exp }
pub fn c71_7() -> bool { let s: &str = "  x "; let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{20}', '\u{20}', '\u{78}', '\u{20}']; got == exp }
pub fn s71_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{20}', '\u{20}', '\u{78}', '\u{20}']; got == exp }
pub fn c71_8() -> bool { let s: &str = "12"; let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{31}', '\u{32}']; got == exp }
pub fn s71_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{31}', '\u{32}']; got == exp }
pub fn c71_9() -> bool { let s: &str = "-5"; let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{2d}', '\u{35}']; got == exp }
pub fn s71_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{2d}', '\u{35}']; got == exp }
pub fn c71_10() -> bool { let s: &str = "+7"; let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{2b}', '\u{37}']; got == exp }
pub fn s71_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{2b}', '\u{37}']; got == exp }
pub fn c71_11() -> bool { let s: &str = "99999999999999999999"; let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}']; got == exp }
pub fn s71_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}']; got == exp }
pub fn c71_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{61}', '\u{a}', '\u{62}', '\u{d}', '\u{a}', '\u{63}']; got == exp }
pub fn s71_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{61}', '\u{a}', '\u{62}', '\u{d}', '\u{a}', '\u{63}']; got == exp }
pub fn c71_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{65e5}', '\u{672c}']; got == exp }
pub fn s71_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{65e5}', '\u{672c}']; got == exp }
pub fn c71_14() -> bool { let s: &str = "\u{1f600}z"; let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{1f600}', '\u{7a}']; got == exp }
pub fn s71_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{1f600}', '\u{7a}']; got == exp }
pub fn c71_15() -> bool { let s: &str = "xx"; let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{78}', '\u{78}']; got == exp }
pub fn s71_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Vec<char> = s.chars().collect(); let exp: Vec<char> = vec!['\u{78}', '\u{78}']; got == exp }
pub fn c72_0() -> bool { let s: &str = ""; let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec![]; got == exp }
pub fn s72_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec![]; got == exp }
pub fn c72_1() -> bool { let s: &str = "a"; let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{61}']; got == exp }
pub fn s72_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{61}']; got == exp }
pub fn c72_2() -> bool { let s: &str = "abc"; let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{63}', '\u{62}', '\u{61}']; got == exp }
pub fn s72_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{63}', '\u{62}', '\u{61}']; got == exp }
pub fn c72_3() -> bool { let s: &str = "%a1"; let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{31}', '\u{61}', '\u{25}']; got == exp }
pub fn s72_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{31}', '\u{61}', '\u{25}']; got == exp }
pub fn c72_4() -> bool { let s: &str = "\u{e9}%x"; let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{78}', '\u{25}', '\u{e9}']; got == exp }
pub fn s72_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{78}', '\u{25}', '\u{e9}']; got == exp }
pub fn c72_5() -> bool { let s: &str = "a:b:c"; let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{63}', '\u{3a}', '\u{62}', '\u{3a}', '\u{61}']; got == exp }
pub fn s72_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{63}', '\u{3a}', '\u{62}', '\u{3a}', '\u{61}']; got == exp }
pub fn c72_6() -> bool { let s: &str = "::"; let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{3a}', '\u{3a}']; got == exp }
pub fn s72_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{3a}', '\u{3a}']; got == exp }
pub fn c72_7() -> bool { let s: &str = "  x "; let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{20}', '\u{78}', '\u{20}', '\u{20}']; got == exp }
pub fn s72_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{20}', '\u{78}', '\u{20}', '\u{20}']; got == exp }
pub fn c72_8() -> bool { let s: &str = "12"; let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{32}', '\u{31}']; got == exp }
pub fn s72_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{32}', '\u{31}']; got == exp }
pub fn c72_9() -> bool { let s: &str = "-5"; let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{35}', '\u{2d}']; got == exp }
pub fn s72_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{35}', '\u{2d}']; got == exp }
pub fn c72_10() -> bool { let s: &str = "+7"; let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{37}', '\u{2b}']; got == exp }
pub fn s72_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{37}', '\u{2b}']; got == exp }
pub fn c72_11() -> bool { let s: &str = "99999999999999999999"; let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}']; got == exp }
pub fn s72_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}', '\u{39}']; got == exp }
pub fn c72_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{63}', '\u{a}', '\u{d}', '\u{62}', '\u{a}', '\u{61}']; got == exp }
pub fn s72_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{63}', '\u{a}', '\u{d}', '\u{62}', '\u{a}', '\u{61}']; got == exp }
pub fn c72_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{672c}', '\u{65e5}']; got == exp }
pub fn s72_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{672c}', '\u{65e5}']; got == exp }
pub fn c72_14() -> bool { let s: &str = "\u{1f600}z"; let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{7a}', '\u{1f600}']; got == exp }
pub fn s72_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{7a}', '\u{1f600}']; got == exp }
pub fn c72_15() -> bool { let s: &str = "xx"; let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{78}', '\u{78}']; got == exp }
pub fn s72_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Vec<char> = s.chars().rev().collect(); let exp: Vec<char> = vec!['\u{78}', '\u{78}']; got == exp }
pub fn c73_0() -> bool { let s: &str = ""; let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn s73_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn c73_1() -> bool { let s: &str = "a"; let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0]; got == exp }
pub fn s73_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0]; got == exp }
pub fn c73_2() -> bool { let s: &str = "abc"; let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1, 2]; got == exp }
pub fn s73_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1, 2]; got == exp }
pub fn c73_3() -> bool { let s: &str = "%a1"; let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1, 2]; got == exp }
pub fn s73_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1, 2]; got == exp }
pub fn c73_4() -> bool { let s: &str = "\u{e9}%x"; let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 2, 3]; got == exp }
pub fn s73_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 2, 3]; got == exp }
pub fn c73_5() -> bool { let s: &str = "a:b:c"; let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1, 2, 3, 4]; got == exp }
pub fn s73_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1, 2, 3, 4]; got == exp }
pub fn c73_6() -> bool { let s: &str = "::"; let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1]; got == exp }
pub fn s73_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1]; got == exp }
pub fn c73_7() -> bool { let s: &str = "  x "; let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1, 2, 3]; got == exp }
pub fn s73_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1, 2, 3]; got == exp }
pub fn c73_8() -> bool { let s: &str = "12"; let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1]; got == exp }
pub fn s73_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1]; got == exp }
pub fn c73_9() -> bool { let s: &str = "-5"; let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1]; got == exp }
pub fn s73_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1]; got == exp }
pub fn c73_10() -> bool { let s: &str = "+7"; let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1]; got == exp }
pub fn s73_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1]; got == exp }
pub fn c73_11() -> bool { let s: &str = "99999999999999999999"; let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19]; got == exp }
pub fn s73_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19]; got == exp }
pub fn c73_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1, 2, 3, 4, 5]; got == exp }
pub fn s73_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1, 2, 3, 4, 5]; got == exp }
pub fn c73_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 3]; got == exp }
pub fn s73_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 3]; got == exp }
pub fn c73_14() -> bool { let s: &str = "\u{1f600}z"; let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 4]; got == exp }
pub fn s73_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 4]; got == exp }
pub fn c73_15() -> bool { let s: &str = "xx"; let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1]; got == exp }
pub fn s73_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1]; got == exp }
pub fn c74_0() -> bool { let s: &str = ""; let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn s74_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn c74_1() -> bool { let s: &str = "a"; let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn s74_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn c74_2() -> bool { let s: &str = "abc"; let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn s74_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn c74_3() -> bool { let s: &str = "%a1"; let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn s74_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn c74_4() -> bool { let s: &str = "\u{e9}%x"; let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn s74_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn c74_5() -> bool { let s: &str = "a:b:c"; let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![1, 3]; got == exp }
pub fn s74_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![1, 3]; got == exp }
pub fn c74_6() -> bool { let s: &str = "::"; let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1]; got == exp }
pub fn s74_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![0, 1]; got == exp }
pub fn c74_7() -> bool { let s: &str = "  x "; let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn s74_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn c74_8() -> bool { let s: &str = "12"; let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn s74_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn c74_9() -> bool { let s: &str = "-5"; let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn s74_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn c74_10() -> bool { let s: &str = "+7"; let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn s74_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn c74_11() -> bool { let s: &str = "99999999999999999999"; let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn s74_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn c74_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn s74_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn c74_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn s74_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn c74_14() -> bool { let s: &str = "\u{1f600}z"; let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn s74_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn c74_15() -> bool { let s: &str = "xx"; let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn s74_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Vec<usize> = s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect(); let exp: Vec<usize> = vec![]; got == exp }
pub fn c75_0() -> bool { let s: &str = ""; let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = None; got == exp }
pub fn s75_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = None; got == exp }
pub fn c75_1() -> bool { let s: &str = "0"; let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = Some(0); got == exp }
pub fn s75_1(s: &'static str) -> bool { if !(s == "0") { return true; } let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = Some(0); got == exp }
pub fn c75_2() -> bool { let s: &str = "007"; let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = Some(7); got == exp }
pub fn s75_2(s: &'static str) -> bool { if !(s == "007") { return true; } let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = Some(7); got == exp }
pub fn c75_3() -> bool { let s: &str = "12"; let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = Some(12); got == exp }
pub fn s75_3(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = Some(12); got == exp }
pub fn c75_4() -> bool { let s: &str = "-5"; let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = Some(-5); got == exp }
pub fn s75_4(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = Some(-5); got == exp }
pub fn c75_5() -> bool { let s: &str = "+7"; let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = Some(7); got == exp }
pub fn s75_5(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = Some(7); got == exp }
pub fn c75_6() -> bool { let s: &str = "-"; let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = None; got == exp }
pub fn s75_6(s: &'static str) -> bool { if !(s == "-") { return true; } let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = None; got == exp }
pub fn c75_7() -> bool { let s: &str = "+"; let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = None; got == exp }
pub fn s75_7(s: &'static str) -> bool { if !(s == "+") { return true; } let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = None; got == exp }
pub fn c75_8() -> bool { let s: &str = "--1"; let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = None; got == exp }
pub fn s75_8(s: &'static str) -> bool { if !(s == "--1") { return true; } let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = None; got == exp }
pub fn c75_9() -> bool { let s: &str = "9223372036854775807"; let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = Some(9223372036854775807); got == exp }
pub fn s75_9(s: &'static str) -> bool { if !(s == "9223372036854775807") { return true; } let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = Some(9223372036854775807); got == exp }
pub fn c75_10() -> bool { let s: &str = "9223372036854775808"; let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = None; got == exp }
pub fn s75_10(s: &'static str) -> bool { if !(s == "9223372036854775808") { return true; } let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = None; got == exp }
pub fn c75_11() -> bool { let s: &str = "-9223372036854775808"; let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = Some(i64::MIN); got == exp }
pub fn s75_11(s: &'static str) -> bool { if !(s == "-9223372036854775808") { return true; } let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = Some(i64::MIN); got == exp }
pub fn c75_12() -> bool { let s: &str = " 1"; let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = None; got == exp }
pub fn s75_12(s: &'static str) -> bool { if !(s == " 1") { return true; } let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = None; got == exp }
pub fn c75_13() -> bool { let s: &str = "1a"; let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = None; got == exp }
pub fn s75_13(s: &'static str) -> bool { if !(s == "1a") { return true; } let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = None; got == exp }
pub fn c75_14() -> bool { let s: &str = "\u{663}"; let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = None; got == exp }
pub fn s75_14(s: &'static str) -> bool { if !(s == "\u{663}") { return true; } let got: Option<i64> = s.parse::<i64>().ok(); let exp: Option<i64> = None; got == exp }
pub fn c76_0() -> bool { let s: &str = ""; let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = None; got == exp }
pub fn s76_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = None; got == exp }
pub fn c76_1() -> bool { let s: &str = "0"; let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = Some(1); got == exp }
pub fn s76_1(s: &'static str) -> bool { if !(s == "0") { return true; } let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = Some(1); got == exp }
pub fn c76_2() -> bool { let s: &str = "007"; let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = Some(8); got == exp }
pub fn s76_2(s: &'static str) -> bool { if !(s == "007") { return true; } let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = Some(8); got == exp }
pub fn c76_3() -> bool { let s: &str = "12"; let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = Some(13); got == exp }
pub fn s76_3(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = Some(13); got == exp }
pub fn c76_4() -> bool { let s: &str = "-5"; let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = Some(-4); got == exp }
pub fn s76_4(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = Some(-4); got == exp }
pub fn c76_5() -> bool { let s: &str = "+7"; let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = Some(8); got == exp }
pub fn s76_5(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = Some(8); got == exp }
pub fn c76_6() -> bool { let s: &str = "-"; let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = None; got == exp }
pub fn s76_6(s: &'static str) -> bool { if !(s == "-") { return true; } let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = None; got == exp }
pub fn c76_7() -> bool { let s: &str = "+"; let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = None; got == exp }
pub fn s76_7(s: &'static str) -> bool { if !(s == "+") { return true; } let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = None; got == exp }
pub fn c76_8() -> bool { let s: &str = "--1"; let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = None; got == exp }
pub fn s76_8(s: &'static str) -> bool { if !(s == "--1") { return true; } let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = None; got == exp }
pub fn c76_9() -> bool { let s: &str = "9223372036854775807"; let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = None; got == exp }
pub fn s76_9(s: &'static str) -> bool { if !(s == "9223372036854775807") { return true; } let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = None; got == exp }
pub fn c76_10() -> bool { let s: &str = "9223372036854775808"; let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = None; got == exp }
pub fn s76_10(s: &'static str) -> bool { if !(s == "9223372036854775808") { return true; } let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = None; got == exp }
pub fn c76_11() -> bool { let s: &str = "-9223372036854775808"; let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = Some(-9223372036854775807); got == exp }
pub fn s76_11(s: &'static str) -> bool { if !(s == "-9223372036854775808") { return true; } let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = Some(-9223372036854775807); got == exp }
pub fn c76_12() -> bool { let s: &str = " 1"; let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = None; got == exp }
pub fn s76_12(s: &'static str) -> bool { if !(s == " 1") { return true; } let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = None; got == exp }
pub fn c76_13() -> bool { let s: &str = "1a"; let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = None; got == exp }
pub fn s76_13(s: &'static str) -> bool { if !(s == "1a") { return true; } let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = None; got == exp }
pub fn c76_14() -> bool { let s: &str = "\u{663}"; let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = None; got == exp }
pub fn s76_14(s: &'static str) -> bool { if !(s == "\u{663}") { return true; } let got: Option<i64> = s.parse::<i64>().ok().and_then(|x| x.checked_add(1)); let exp: Option<i64> = None; got == exp }
pub fn c77_0() -> bool { let s: &str = ""; let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn s77_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn c77_1() -> bool { let s: &str = "0"; let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = Some(0); got == exp }
pub fn s77_1(s: &'static str) -> bool { if !(s == "0") { return true; } let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = Some(0); got == exp }
pub fn c77_2() -> bool { let s: &str = "007"; let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = Some(7); got == exp }
pub fn s77_2(s: &'static str) -> bool { if !(s == "007") { return true; } let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = Some(7); got == exp }
pub fn c77_3() -> bool { let s: &str = "12"; let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = Some(12); got == exp }
pub fn s77_3(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = Some(12); got == exp }
pub fn c77_4() -> bool { let s: &str = "-5"; let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn s77_4(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn c77_5() -> bool { let s: &str = "+7"; let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = Some(7); got == exp }
pub fn s77_5(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = Some(7); got == exp }
pub fn c77_6() -> bool { let s: &str = "-"; let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn s77_6(s: &'static str) -> bool { if !(s == "-") { return true; } let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn c77_7() -> bool { let s: &str = "+"; let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn s77_7(s: &'static str) -> bool { if !(s == "+") { return true; } let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn c77_8() -> bool { let s: &str = "--1"; let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn s77_8(s: &'static str) -> bool { if !(s == "--1") { return true; } let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn c77_9() -> bool { let s: &str = "9223372036854775807"; let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn s77_9(s: &'static str) -> bool { if !(s == "9223372036854775807") { return true; } let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn c77_10() -> bool { let s: &str = "9223372036854775808"; let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn s77_10(s: &'static str) -> bool { if !(s == "9223372036854775808") { return true; } let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn c77_11() -> bool { let s: &str = "-9223372036854775808"; let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn s77_11(s: &'static str) -> bool { if !(s == "-9223372036854775808") { return true; } let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn c77_12() -> bool { let s: &str = " 1"; let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn s77_12(s: &'static str) -> bool { if !(s == " 1") { return true; } let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn c77_13() -> bool { let s: &str = "1a"; let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn s77_13(s: &'static str) -> bool { if !(s == "1a") { return true; } let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn c77_14() -> bool { let s: &str = "\u{663}"; let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn s77_14(s: &'static str) -> bool { if !(s == "\u{663}") { return true; } let got: Option<i64> = s.parse::<u32>().ok().map(|x| x as i64); let exp: Option<i64> = None; got == exp }
pub fn c78_0() -> bool { let s: &str = ""; let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = None; got == exp }
pub fn s78_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = None; got == exp }
pub fn c78_1() -> bool { let s: &str = "0"; let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = Some(0); got == exp }
pub fn s78_1(s: &'static str) -> bool { if !(s == "0") { return true; } let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = Some(0); got == exp }
pub fn c78_2() -> bool { let s: &str = "007"; let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = Some(3); got == exp }
pub fn s78_2(s: &'static str) -> bool { if !(s == "007") { return true; } let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = Some(3); got == exp }
pub fn c78_3() -> bool { let s: &str = "12"; let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = Some(6); got == exp }
pub fn s78_3(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = Some(6); got == exp }
pub fn c78_4() -> bool { let s: &str = "-5"; let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = None; got == exp }
pub fn s78_4(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = None; got == exp }
pub fn c78_5() -> bool { let s: &str = "+7"; let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = Some(3); got == exp }
pub fn s78_5(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = Some(3); got == exp }
pub fn c78_6() -> bool { let s: &str = "-"; let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = None; got == exp }
pub fn s78_6(s: &'static str) -> bool { if !(s == "-") { return true; } let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = None; got == exp }
pub fn c78_7() -> bool { let s: &str = "+"; let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = None; got == exp }
pub fn s78_7(s: &'static str) -> bool { if !(s == "+") { return true; } let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = None; got == exp }
pub fn c78_8() -> bool { let s: &str = "--1"; let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = None; got == exp }
pub fn s78_8(s: &'static str) -> bool { if !(s == "--1") { return true; } let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = None; got == exp }
pub fn c78_9() -> bool { let s: &str = "9223372036854775807"; let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = Some(4611686018427387903); got == exp }
pub fn s78_9(s: &'static str) -> bool { if !(s == "9223372036854775807") { return true; } let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = Some(4611686018427387903); got == exp }
pub fn c78_10() -> bool { let s: &str = "9223372036854775808"; let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = Some(4611686018427387904); got == exp }
pub fn s78_10(s: &'static str) -> bool { if !(s == "9223372036854775808") { return true; } let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = Some(4611686018427387904); got == exp }
pub fn c78_11() -> bool { let s: &str = "-9223372036854775808"; let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = None; got == exp }
pub fn s78_11(s: &'static str) -> bool { if !(s == "-9223372036854775808") { return true; } let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = None; got == exp }
pub fn c78_12() -> bool { let s: &str = " 1"; let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = None; got == exp }
pub fn s78_12(s: &'static str) -> bool { if !(s == " 1") { return true; } let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = None; got == exp }
pub fn c78_13() -> bool { let s: &str = "1a"; let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = None; got == exp }
pub fn s78_13(s: &'static str) -> bool { if !(s == "1a") { return true; } let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = None; got == exp }
pub fn c78_14() -> bool { let s: &str = "\u{663}"; let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = None; got == exp }
pub fn s78_14(s: &'static str) -> bool { if !(s == "\u{663}") { return true; } let got: Option<i64> = s.parse::<u64>().ok().map(|x| (x / 2) as i64); let exp: Option<i64> = None; got == exp }
pub fn c79_0() -> bool { let s: &str = ""; let got: bool = s.parse::<usize>().is_err(); let exp: bool = true; got == exp }
pub fn s79_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.parse::<usize>().is_err(); let exp: bool = true; got == exp }
pub fn c79_1() -> bool { let s: &str = "0"; let got: bool = s.parse::<usize>().is_err(); let exp: bool = false; got == exp }
pub fn s79_1(s: &'static str) -> bool { if !(s == "0") { return true; } let got: bool = s.parse::<usize>().is_err(); let exp: bool = false; got == exp }
pub fn c79_2() -> bool { let s: &str = "007"; let got: bool = s.parse::<usize>().is_err(); let exp: bool = false; got == exp }
pub fn s79_2(s: &'static str) -> bool { if !(s == "007") { return true; } let got: bool = s.parse::<usize>().is_err(); let exp: bool = false; got == exp }
pub fn c79_3() -> bool { let s: &str = "12"; let got: bool = s.parse::<usize>().is_err(); let exp: bool = false; got == exp }
pub fn s79_3(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.parse::<usize>().is_err(); let exp: bool = false; got == exp }
pub fn c79_4() -> bool { let s: &str = "-5"; let got: bool = s.parse::<usize>().is_err(); let exp: bool = true; got == exp }
pub fn s79_4(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.parse::<usize>().is_err(); let exp: bool = true; got == exp }
pub fn c79_5() -> bool { let s: &str = "+7"; let got: bool = s.parse::<usize>().is_err(); let exp: bool = false; got == exp }
pub fn s79_5(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.parse::<usize>().is_err(); let exp: bool = false; got == exp }
pub fn c79_6() -> bool { let s: &str = "-"; let got: bool = s.parse::<usize>().is_err(); let exp: bool = true; got == exp }
pub fn s79_6(s: &'static str) -> bool { if !(s == "-") { return true; } let got: bool = s.parse::<usize>().is_err(); let exp: bool = true; got == exp }
pub fn c79_7() -> bool { let s: &str = "+"; let got: bool = s.parse::<usize>().is_err(); let exp: bool = true; got == exp }
pub fn s79_7(s: &'static str) -> bool { if !(s == "+") { return true; } let got: bool = s.parse::<usize>().is_err(); let exp: bool = true; got == exp }
pub fn c79_8() -> bool { let s: &str = "--1"; let got: bool = s.parse::<usize>().is_err(); let exp: bool = true; got == exp }
pub fn s79_8(s: &'static str) -> bool { if !(s == "--1") { return true; } let got: bool = s.parse::<usize>().is_err(); let exp: bool = true; got == exp }
pub fn c79_9() -> bool { let s: &str = "9223372036854775807"; let got: bool = s.parse::<usize>().is_err(); let exp: bool = false; got == exp }
pub fn s79_9(s: &'static str) -> bool { if !(s == "9223372036854775807") { return true; } let got: bool = s.parse::<usize>().is_err(); let exp: bool = false; got == exp }
pub fn c79_10() -> bool { let s: &str = "9223372036854775808"; let got: bool = s.parse::<usize>().is_err(); let exp: bool = false; got == exp }
pub fn s79_10(s: &'static str) -> bool { if !(s == "9223372036854775808") { return true; } let got: bool = s.parse::<usize>().is_err(); let exp: bool = false; got == exp }
pub fn c79_11() -> bool { let s: &str = "-9223372036854775808"; let got: bool = s.parse::<usize>().is_err(); let exp: bool = true; got == exp }
pub fn s79_11(s: &'static str) -> bool { if !(s == "-9223372036854775808") { return true; } let got: bool = s.parse::<usize>().is_err(); let exp: bool = true; got == exp }
pub fn c79_12() -> bool { let s: &str = " 1"; let got: bool = s.parse::<usize>().is_err(); let exp: bool = true; got == exp }
pub fn s79_12(s: &'static str) -> bool { if !(s == " 1") { return true; } let got: bool = s.parse::<usize>().is_err(); let exp: bool = true; got == exp }
pub fn c79_13() -> bool { let s: &str = "1a"; let got: bool = s.parse::<usize>().is_err(); let exp: bool = true; got == exp }
pub fn s79_13(s: &'static str) -> bool { if !(s == "1a") { return true; } let got: bool = s.parse::<usize>().is_err(); let exp: bool = true; got == exp }
pub fn c79_14() -> bool { let s: &str = "\u{663}"; let got: bool = s.parse::<usize>().is_err(); let exp: bool = true; got == exp }
pub fn s79_14(s: &'static str) -> bool { if !(s == "\u{663}") { return true; } let got: bool = s.parse::<usize>().is_err(); let exp: bool = true; got == exp }
pub fn c80_0() -> bool { let c: char = 'a'; let got: bool = c.is_alphabetic(); let exp: bool = true; got == exp }
pub fn s80_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = c.is_alphabetic(); let exp: bool = true; got == exp }
pub fn c80_1() -> bool { let c: char = 'Z'; let got: bool = c.is_alphabetic(); let exp: bool = true; got == exp }
pub fn s80_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = c.is_alphabetic(); let exp: bool = true; got == exp }
pub fn c80_2() -> bool { let c: char = '0'; let got: bool = c.is_alphabetic(); let exp: bool = false; got == exp }
pub fn s80_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = c.is_alphabetic(); let exp: bool = false; got == exp }
pub fn c80_3() -> bool { let c: char = '_'; let got: bool = c.is_alphabetic(); let exp: bool = false; got == exp }
pub fn s80_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = c.is_alphabetic(); let exp: bool = false; got == exp }
pub fn c80_4() -> bool { let c: char = ' '; let got: bool = c.is_alphabetic(); let exp: bool = false; got == exp }
pub fn s80_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = c.is_alphabetic(); let exp: bool = false; got == exp }
pub fn c80_5() -> bool { let c: char = '\n'; let got: bool = c.is_alphabetic(); let exp: bool = false; got == exp }
pub fn s80_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = c.is_alphabetic(); let exp: bool = false; got == exp }
pub fn c80_6() -> bool { let c: char = '\u{e9}'; let got: bool = c.is_alphabetic(); let exp: bool = true; got == exp }
pub fn s80_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = c.is_alphabetic(); let exp: bool = true; got == exp }
pub fn c80_7() -> bool { let c: char = '\u{1f600}'; let got: bool = c.is_alphabetic(); let exp: bool = false; got == exp }
pub fn s80_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = c.is_alphabetic(); let exp: bool = false; got == exp }
pub fn c80_8() -> bool { let c: char = '\u{663}'; let got: bool = c.is_alphabetic(); let exp: bool = false; got == exp }
pub fn s80_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = c.is_alphabetic(); let exp: bool = false; got == exp }
pub fn c80_9() -> bool { let c: char = '\u{2028}'; let got: bool = c.is_alphabetic(); let exp: bool = false; got == exp }
pub fn s80_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = c.is_alphabetic(); let exp: bool = false; got == exp }
pub fn c80_10() -> bool { let c: char = ':'; let got: bool = c.is_alphabetic(); let exp: bool = false; got == exp }
pub fn s80_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = c.is_alphabetic(); let exp: bool = false; got == exp }
pub fn c81_0() -> bool { let c: char = 'a'; let got: bool = c.is_alphanumeric(); let exp: bool = true; got == exp }
pub fn s81_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = c.is_alphanumeric(); let exp: bool = true; got == exp }
pub fn c81_1() -> bool { let c: char = 'Z'; let got: bool = c.is_alphanumeric(); let exp: bool = true; got == exp }
pub fn s81_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = c.is_alphanumeric(); let exp: bool = true; got == exp }
pub fn c81_2() -> bool { let c: char = '0'; let got: bool = c.is_alphanumeric(); let exp: bool = true; got == exp }
pub fn s81_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = c.is_alphanumeric(); let exp: bool = true; got == exp }
pub fn c81_3() -> bool { let c: char = '_'; let got: bool = c.is_alphanumeric(); let exp: bool = false; got == exp }
pub fn s81_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = c.is_alphanumeric(); let exp: bool = false; got == exp }
pub fn c81_4() -> bool { let c: char = ' '; let got: bool = c.is_alphanumeric(); let exp: bool = false; got == exp }
pub fn s81_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = c.is_alphanumeric(); let exp: bool = false; got == exp }
pub fn c81_5() -> bool { let c: char = '\n'; let got: bool = c.is_alphanumeric(); let exp: bool = false; got == exp }
pub fn s81_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = c.is_alphanumeric(); let exp: bool = false; got == exp }
pub fn c81_6() -> bool { let c: char = '\u{e9}'; let got: bool = c.is_alphanumeric(); let exp: bool = true; got == exp }
pub fn s81_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = c.is_alphanumeric(); let exp: bool = true; got == exp }
pub fn c81_7() -> bool { let c: char = '\u{1f600}'; let got: bool = c.is_alphanumeric(); let exp: bool = false; got == exp }
pub fn s81_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = c.is_alphanumeric(); let exp: bool = false; got == exp }
pub fn c81_8() -> bool { let c: char = '\u{663}'; let got: bool = c.is_alphanumeric(); let exp: bool = true; got == exp }
pub fn s81_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = c.is_alphanumeric(); let exp: bool = true; got == exp }
pub fn c81_9() -> bool { let c: char = '\u{2028}'; let got: bool = c.is_alphanumeric(); let exp: bool = false; got == exp }
pub fn s81_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = c.is_alphanumeric(); let exp: bool = false; got == exp }
pub fn c81_10() -> bool { let c: char = ':'; let got: bool = c.is_alphanumeric(); let exp: bool = false; got == exp }
pub fn s81_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = c.is_alphanumeric(); let exp: bool = false; got == exp }
pub fn c82_0() -> bool { let c: char = 'a'; let got: bool = c.is_numeric(); let exp: bool = false; got == exp }
pub fn s82_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = c.is_numeric(); let exp: bool = false; got == exp }
pub fn c82_1() -> bool { let c: char = 'Z'; let got: bool = c.is_numeric(); let exp: bool = false; got == exp }
pub fn s82_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = c.is_numeric(); let exp: bool = false; got == exp }
pub fn c82_2() -> bool { let c: char = '0'; let got: bool = c.is_numeric(); let exp: bool = true; got == exp }
pub fn s82_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = c.is_numeric(); let exp: bool = true; got == exp }
pub fn c82_3() -> bool { let c: char = '_'; let got: bool = c.is_numeric(); let exp: bool = false; got == exp }
pub fn s82_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = c.is_numeric(); let exp: bool = false; got == exp }
pub fn c82_4() -> bool { let c: char = ' '; let got: bool = c.is_numeric(); let exp: bool = false; got == exp }
pub fn s82_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = c.is_numeric(); let exp: bool = false; got == exp }
pub fn c82_5() -> bool { let c: char = '\n'; let got: bool = c.is_numeric(); let exp: bool = false; got == exp }
pub fn s82_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = c.is_numeric(); let exp: bool = false; got == exp }
pub fn c82_6() -> bool { let c: char = '\u{e9}'; let got: bool = c.is_numeric(); let exp: bool = false; got == exp }
pub fn s82_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = c.is_numeric(); let exp: bool = false; got == exp }
pub fn c82_7() -> bool { let c: char = '\u{1f600}'; let got: bool = c.is_numeric(); let exp: bool = false; got == exp }
pub fn s82_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = c.is_numeric(); let exp: bool = false; got == exp }
pub fn c82_8() -> bool { let c: char = '\u{663}'; let got: bool = c.is_numeric(); let exp: bool = true; got == exp }
pub fn s82_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = c.is_numeric(); let exp: bool = true; got == exp }
pub fn c82_9() -> bool { let c: char = '\u{2028}'; let got: bool = c.is_numeric(); let exp: bool = false; got == exp }
pub fn s82_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = c.is_numeric(); let exp: bool = false; got == exp }
pub fn c82_10() -> bool { let c: char = ':'; let got: bool = c.is_numeric(); let exp: bool = false; got == exp }
pub fn s82_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = c.is_numeric(); let exp: bool = false; got == exp }
pub fn c83_0() -> bool { let c: char = 'a'; let got: bool = c.is_whitespace(); let exp: bool = false; got == exp }
pub fn s83_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = c.is_whitespace(); let exp: bool = false; got == exp }
pub fn c83_1() -> bool { let c: char = 'Z'; let got: bool = c.is_whitespace(); let exp: bool = false; got == exp }
pub fn s83_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = c.is_whitespace(); let exp: bool = false; got == exp }
pub fn c83_2() -> bool { let c: char = '0'; let got: bool = c.is_whitespace(); let exp: bool = false; got == exp }
pub fn s83_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = c.is_whitespace(); let exp: bool = false; got == exp }
pub fn c83_3() -> bool { let c: char = '_'; let got: bool = c.is_whitespace(); let exp: bool = false; got == exp }
pub fn s83_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = c.is_whitespace(); let exp: bool = false; got == exp }
pub fn c83_4() -> bool { let c: char = ' '; let got: bool = c.is_whitespace(); let exp: bool = true; got == exp }
pub fn s83_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = c.is_whitespace(); let exp: bool = true; got == exp }
pub fn c83_5() -> bool { let c: char = '\n'; let got: bool = c.is_whitespace(); let exp: bool = true; got == exp }
pub fn s83_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = c.is_whitespace(); let exp: bool = true; got == exp }
pub fn c83_6() -> bool { let c: char = '\u{e9}'; let got: bool = c.is_whitespace(); let exp: bool = false; got == exp }
pub fn s83_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = c.is_whitespace(); let exp: bool = false; got == exp }
pub fn c83_7() -> bool { let c: char = '\u{1f600}'; let got: bool = c.is_whitespace(); let exp: bool = false; got == exp }
pub fn s83_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = c.is_whitespace(); let exp: bool = false; got == exp }
pub fn c83_8() -> bool { let c: char = '\u{663}'; let got: bool = c.is_whitespace(); let exp: bool = false; got == exp }
pub fn s83_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = c.is_whitespace(); let exp: bool = false; got == exp }
pub fn c83_9() -> bool { let c: char = '\u{2028}'; let got: bool = c.is_whitespace(); let exp: bool = true; got == exp }
pub fn s83_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = c.is_whitespace(); let exp: bool = true; got == exp }
pub fn c83_10() -> bool { let c: char = ':'; let got: bool = c.is_whitespace(); let exp: bool = false; got == exp }
pub fn s83_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = c.is_whitespace(); let exp: bool = false; got == exp }
pub fn c84_0() -> bool { let c: char = 'a'; let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn s84_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn c84_1() -> bool { let c: char = 'Z'; let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn s84_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn c84_2() -> bool { let c: char = '0'; let got: bool = c.is_ascii_digit(); let exp: bool = true; got == exp }
pub fn s84_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = c.is_ascii_digit(); let exp: bool = true; got == exp }
pub fn c84_3() -> bool { let c: char = '_'; let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn s84_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn c84_4() -> bool { let c: char = ' '; let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn s84_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn c84_5() -> bool { let c: char = '\n'; let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn s84_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn c84_6() -> bool { let c: char = '\u{e9}'; let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn s84_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn c84_7() -> bool { let c: char = '\u{1f600}'; let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn s84_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn c84_8() -> bool { let c: char = '\u{663}'; let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn s84_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn c84_9() -> bool { let c: char = '\u{2028}'; let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn s84_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn c84_10() -> bool { let c: char = ':'; let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn s84_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = c.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn c85_0() -> bool { let c: char = 'a'; let got: bool = c.is_ascii(); let exp: bool = true; got == exp }
pub fn s85_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = c.is_ascii(); let exp: bool = true; got == exp }
pub fn c85_1() -> bool { let c: char = 'Z'; let got: bool = c.is_ascii(); let exp: bool = true; got == exp }
pub fn s85_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = c.is_ascii(); let exp: bool = true; got == exp }
pub fn c85_2() -> bool { let c: char = '0'; let got: bool = c.is_ascii(); let exp: bool = true; got == exp }
pub fn s85_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = c.is_ascii(); let exp: bool = true; got == exp }
pub fn c85_3() -> bool { let c: char = '_'; let got: bool = c.is_ascii(); let exp: bool = true; got == exp }
pub fn s85_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = c.is_ascii(); let exp: bool = true; got == exp }
pub fn c85_4() -> bool { let c: char = ' '; let got: bool = c.is_ascii(); let exp: bool = true; got == exp }
pub fn s85_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = c.is_ascii(); let exp: bool = true; got == exp }
pub fn c85_5() -> bool { let c: char = '\n'; let got: bool = c.is_ascii(); let exp: bool = true; got == exp }
pub fn s85_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = c.is_ascii(); let exp: bool = true; got == exp }
pub fn c85_6() -> bool { let c: char = '\u{e9}'; let got: bool = c.is_ascii(); let exp: bool = false; got == exp }
pub fn s85_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = c.is_ascii(); let exp: bool = false; got == exp }
pub fn c85_7() -> bool { let c: char = '\u{1f600}'; let got: bool = c.is_ascii(); let exp: bool = false; got == exp }
pub fn s85_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = c.is_ascii(); let exp: bool = false; got == exp }
pub fn c85_8() -> bool { let c: char = '\u{663}'; let got: bool = c.is_ascii(); let exp: bool = false; got == exp }
pub fn s85_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = c.is_ascii(); let exp: bool = false; got == exp }
pub fn c85_9() -> bool { let c: char = '\u{2028}'; let got: bool = c.is_ascii(); let exp: bool = false; got == exp }
pub fn s85_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = c.is_ascii(); let exp: bool = false; got == exp }
pub fn c85_10() -> bool { let c: char = ':'; let got: bool = c.is_ascii(); let exp: bool = true; got == exp }
pub fn s85_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = c.is_ascii(); let exp: bool = true; got == exp }
pub fn c86_0() -> bool { let c: char = 'a'; let got: bool = c.is_ascii_alphabetic(); let exp: bool = true; got == exp }
pub fn s86_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = c.is_ascii_alphabetic(); let exp: bool = true; got == exp }
pub fn c86_1() -> bool { let c: char = 'Z'; let got: bool = c.is_ascii_alphabetic(); let exp: bool = true; got == exp }
pub fn s86_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = c.is_ascii_alphabetic(); let exp: bool = true; got == exp }
pub fn c86_2() -> bool { let c: char = '0'; let got: bool = c.is_ascii_alphabetic(); let exp: bool = false; got == exp }
pub fn s86_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = c.is_ascii_alphabetic(); let exp: bool = false; got == exp }
pub fn c86_3() -> bool { let c: char = '_'; let got: bool = c.is_ascii_alphabetic(); let exp: bool = false; got == exp }
pub fn s86_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = c.is_ascii_alphabetic(); let exp: bool = false; got == exp }
pub fn c86_4() -> bool { let c: char = ' '; let got: bool = c.is_ascii_alphabetic(); let exp: bool = false; got == exp }
pub fn s86_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = c.is_ascii_alphabetic(); let exp: bool = false; got == exp }
pub fn c86_5() -> bool { let c: char = '\n'; let got: bool = c.is_ascii_alphabetic(); let exp: bool = false; got == exp }
pub fn s86_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = c.is_ascii_alphabetic(); let exp: bool = false; got == exp }
pub fn c86_6() -> bool { let c: char = '\u{e9}'; let got: bool = c.is_ascii_alphabetic(); let exp: bool = false; got == exp }
pub fn s86_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = c.is_ascii_alphabetic(); let exp: bool = false; got == exp }
pub fn c86_7() -> bool { let c: char = '\u{1f600}'; let got: bool = c.is_ascii_alphabetic(); let exp: bool = false; got == exp }
pub fn s86_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = c.is_ascii_alphabetic(); let exp: bool = false; got == exp }
pub fn c86_8() -> bool { let c: char = '\u{663}'; let got: bool = c.is_ascii_alphabetic(); let exp: bool = false; got == exp }
pub fn s86_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = c.is_ascii_alphabetic(); let exp: bool = false; got == exp }
pub fn c86_9() -> bool { let c: char = '\u{2028}'; let got: bool = c.is_ascii_alphabetic(); let exp: bool = false; got == exp }
pub fn s86_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = c.is_ascii_alphabetic(); let exp: bool = false; got == exp }
pub fn c86_10() -> bool { let c: char = ':'; let got: bool = c.is_ascii_alphabetic(); let exp: bool = false; got == exp }
pub fn s86_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = c.is_ascii_alphabetic(); let exp: bool = false; got == exp }
pub fn c87_0() -> bool { let c: char = 'a'; let got: bool = c.is_ascii_alphanumeric(); let exp: bool = true; got == exp }
pub fn s87_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = c.is_ascii_alphanumeric(); let exp: bool = true; got == exp }
pub fn c87_1() -> bool { let c: char = 'Z'; let got: bool = c.is_ascii_alphanumeric(); let exp: bool = true; got == exp }
pub fn s87_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = c.is_ascii_alphanumeric(); let exp: bool = true; got == exp }
pub fn c87_2() -> bool { let c: char = '0'; let got: bool = c.is_ascii_alphanumeric(); let exp: bool = true; got == exp }
pub fn s87_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = c.is_ascii_alphanumeric(); let exp: bool = true; got == exp }
pub fn c87_3() -> bool { let c: char = '_'; let got: bool = c.is_ascii_alphanumeric(); let exp: bool = false; got == exp }
pub fn s87_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = c.is_ascii_alphanumeric(); let exp: bool = false; got == exp }
pub fn c87_4() -> bool { let c: char = ' '; let got: bool = c.is_ascii_alphanumeric(); let exp: bool = false; got == exp }
pub fn s87_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = c.is_ascii_alphanumeric(); let exp: bool = false; got == exp }
pub fn c87_5() -> bool { let c: char = '\n'; let got: bool = c.is_ascii_alphanumeric(); let exp: bool = false; got == exp }
pub fn s87_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = c.is_ascii_alphanumeric(); let exp: bool = false; got == exp }
pub fn c87_6() -> bool { let c: char = '\u{e9}'; let got: bool = c.is_ascii_alphanumeric(); let exp: bool = false; got == exp }
pub fn s87_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = c.is_ascii_alphanumeric(); let exp: bool = false; got == exp }
pub fn c87_7() -> bool { let c: char = '\u{1f600}'; let got: bool = c.is_ascii_alphanumeric(); let exp: bool = false; got == exp }
pub fn s87_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = c.is_ascii_alphanumeric(); let exp: bool = false; got == exp }
pub fn c87_8() -> bool { let c: char = '\u{663}'; let got: bool = c.is_ascii_alphanumeric(); let exp: bool = false; got == exp }
pub fn s87_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = c.is_ascii_alphanumeric(); let exp: bool = false; got == exp }
pub fn c87_9() -> bool { let c: char = '\u{2028}'; let got: bool = c.is_ascii_alphanumeric(); let exp: bool = false; got == exp }
pub fn s87_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = c.is_ascii_alphanumeric(); let exp: bool = false; got == exp }
pub fn c87_10() -> bool { let c: char = ':'; let got: bool = c.is_ascii_alphanumeric(); let exp: bool = false; got == exp }
pub fn s87_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = c.is_ascii_alphanumeric(); let exp: bool = false; got == exp }
pub fn c88_0() -> bool { let c: char = 'a'; let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn s88_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn c88_1() -> bool { let c: char = 'Z'; let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn s88_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn c88_2() -> bool { let c: char = '0'; let got: bool = c.is_digit(10); let exp: bool = true; got == exp }
pub fn s88_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = c.is_digit(10); let exp: bool = true; got == exp }
pub fn c88_3() -> bool { let c: char = '_'; let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn s88_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn c88_4() -> bool { let c: char = ' '; let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn s88_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn c88_5() -> bool { let c: char = '\n'; let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn s88_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn c88_6() -> bool { let c: char = '\u{e9}'; let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn s88_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn c88_7() -> bool { let c: char = '\u{1f600}'; let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn s88_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn c88_8() -> bool { let c: char = '\u{663}'; let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn s88_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn c88_9() -> bool { let c: char = '\u{2028}'; let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn s88_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn c88_10() -> bool { let c: char = ':'; let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn s88_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = c.is_digit(10); let exp: bool = false; got == exp }
pub fn c89_0() -> bool { let c: char = 'a'; let got: bool = c.is_digit(16); let exp: bool = true; got == exp }
pub fn s89_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = c.is_digit(16); let exp: bool = true; got == exp }
pub fn c89_1() -> bool { let c: char = 'Z'; let got: bool = c.is_digit(16); let exp: bool = false; got == exp }
pub fn s89_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = c.is_digit(16); let exp: bool = false; got == exp }
pub fn c89_2() -> bool { let c: char = '0'; let got: bool = c.is_digit(16); let exp: bool = true; got == exp }
pub fn s89_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = c.is_digit(16); let exp: bool = true; got == exp }
pub fn c89_3() -> bool { let c: char = '_'; let got: bool = c.is_digit(16); let exp: bool = false; got == exp }
pub fn s89_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = c.is_digit(16); let exp: bool = false; got == exp }
pub fn c89_4() -> bool { let c: char = ' '; let got: bool = c.is_digit(16); let exp: bool = false; got == exp }
pub fn s89_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = c.is_digit(16); let exp: bool = false; got == exp }
pub fn c89_5() -> bool { let c: char = '\n'; let got: bool = c.is_digit(16); let exp: bool = false; got == exp }
pub fn s89_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = c.is_digit(16); let exp: bool = false; got == exp }
pub fn c89_6() -> bool { let c: char = '\u{e9}'; let got: bool = c.is_digit(16); let exp: bool = false; got == exp }
pub fn s89_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = c.is_digit(16); let exp: bool = false; got == exp }
pub fn c89_7() -> bool { let c: char = '\u{1f600}'; let got: bool = c.is_digit(16); let exp: bool = false; got == exp }
pub fn s89_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = c.is_digit(16); let exp: bool = false; got == exp }
pub fn c89_8() -> bool { let c: char = '\u{663}'; let got: bool = c.is_digit(16); let exp: bool = false; got == exp }
pub fn s89_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = c.is_digit(16); let exp: bool = false; got == exp }
pub fn c89_9() -> bool { let c: char = '\u{2028}'; let got: bool = c.is_digit(16); let exp: bool = false; got == exp }
pub fn s89_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = c.is_digit(16); let exp: bool = false; got == exp }
pub fn c89_10() -> bool { let c: char = ':'; let got: bool = c.is_digit(16); let exp: bool = false; got == exp }
pub fn s89_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = c.is_digit(16); let exp: bool = false; got == exp }
pub fn c90_0() -> bool { let c: char = 'a'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = true; got == exp }
pub fn s90_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = true; got == exp }
pub fn c90_1() -> bool { let c: char = 'Z'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn s90_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn c90_2() -> bool { let c: char = '0'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = true; got == exp }
pub fn s90_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = true; got == exp }
pub fn c90_3() -> bool { let c: char = '_'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn s90_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn c90_4() -> bool { let c: char = ' '; let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn s90_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn c90_5() -> bool { let c: char = '\n'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn s90_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn c90_6() -> bool { let c: char = '\u{e9}'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn s90_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn c90_7() -> bool { let c: char = '\u{1f600}'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn s90_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn c90_8() -> bool { let c: char = '\u{663}'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn s90_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn c90_9() -> bool { let c: char = '\u{2028}'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn s90_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn c90_10() -> bool { let c: char = ':'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn s90_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn c91_0() -> bool { let c: char = 'a'; let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = true; got == exp }
pub fn s91_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = true; got == exp }
pub fn c91_1() -> bool { let c: char = 'Z'; let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = false; got == exp }
pub fn s91_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = false; got == exp }
pub fn c91_2() -> bool { let c: char = '0'; let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = false; got == exp }
pub fn s91_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = false; got == exp }
pub fn c91_3() -> bool { let c: char = '_'; let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = true; got == exp }
pub fn s91_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = true; got == exp }
pub fn c91_4() -> bool { let c: char = ' '; let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = false; got == exp }
pub fn s91_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = false; got == exp }
pub fn c91_5() -> bool { let c: char = '\n'; let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = false; got == exp }
pub fn s91_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = false; got == exp }
pub fn c91_6() -> bool { let c: char = '\u{e9}'; let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = false; got == exp }
pub fn s91_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = false; got == exp }
pub fn c91_7() -> bool { let c: char = '\u{1f600}'; let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = false; got == exp }
pub fn s91_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = false; got == exp }
pub fn c91_8() -> bool { let c: char = '\u{663}'; let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = false; got == exp }
pub fn s91_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = false; got == exp }
pub fn c91_9() -> bool { let c: char = '\u{2028}'; let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = false; got == exp }
pub fn s91_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = false; got == exp }
pub fn c91_10() -> bool { let c: char = ':'; let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = false; got == exp }
pub fn s91_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = matches!(c, 'a'..='z' | '_'); let exp: bool = false; got == exp }
pub fn c92_0() -> bool { let c: char = 'a'; let got: bool = "a:".contains(c); let exp: bool = true; got == exp }
pub fn s92_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = "a:".contains(c); let exp: bool = true; got == exp }
pub fn c92_1() -> bool { let c: char = 'Z'; let got: bool = "a:".contains(c); let exp: bool = false; got == exp }
pub fn s92_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = "a:".contains(c); let exp: bool = false; got == exp }
pub fn c92_2() -> bool { let c: char = '0'; let got: bool = "a:".contains(c); let exp: bool = false; got == exp }
pub fn s92_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = "a:".contains(c); let exp: bool = false; got == exp }
pub fn c92_3() -> bool { let c: char = '_'; let got: bool = "a:".contains(c); let exp: bool = false; got == exp }
pub fn s92_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = "a:".contains(c); let exp: bool = false; got == exp }
pub fn c92_4() -> bool { let c: char = ' '; let got: bool = "a:".contains(c); let exp: bool = false; got == exp }
pub fn s92_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = "a:".contains(c); let exp: bool = false; got == exp }
pub fn c92_5() -> bool { let c: char = '\n'; let got: bool = "a:".contains(c); let exp: bool = false; got == exp }
pub fn s92_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = "a:".contains(c); let exp: bool = false; got == exp }
pub fn c92_6() -> bool { let c: char = '\u{e9}'; let got: bool = "a:".contains(c); let exp: bool = false; got == exp }
pub fn s92_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = "a:".contains(c); let exp: bool = false; got == exp }
pub fn c92_7() -> bool { let c: char = '\u{1f600}'; let got: bool = "a:".contains(c); let exp: bool = false; got == exp }
pub fn s92_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = "a:".contains(c); let exp: bool = false; got == exp }
pub fn c92_8() -> bool { let c: char = '\u{663}'; let got: bool = "a:".contains(c); let exp: bool = false; got == exp }
pub fn s92_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = "a:".contains(c); let exp: bool = false; got == exp }
pub fn c92_9() -> bool { let c: char = '\u{2028}'; let got: bool = "a:".contains(c); let exp: bool = false; got == exp }
pub fn s92_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = "a:".contains(c); let exp: bool = false; got == exp }
pub fn c92_10() -> bool { let c: char = ':'; let got: bool = "a:".contains(c); let exp: bool = true; got == exp }
pub fn s92_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = "a:".contains(c); let exp: bool = true; got == exp }
pub fn c93_0() -> bool { let c: char = 'a'; let got: bool = c < 'b'; let exp: bool = true; got == exp }
pub fn s93_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = c < 'b'; let exp: bool = true; got == exp }
pub fn c93_1() -> bool { let c: char = 'Z'; let got: bool = c < 'b'; let exp: bool = true; got == exp }
pub fn s93_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = c < 'b'; let exp: bool = true; got == exp }
pub fn c93_2() -> bool { let c: char = '0'; let got: bool = c < 'b'; let exp: bool = true; got == exp }
pub fn s93_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = c < 'b'; let exp: bool = true; got == exp }
pub fn c93_3() -> bool { let c: char = '_'; let got: bool = c < 'b'; let exp: bool = true; got == exp }
pub fn s93_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = c < 'b'; let exp: bool = true; got == exp }
pub fn c93_4() -> bool { let c: char = ' '; let got: bool = c < 'b'; let exp: bool = true; got == exp }
pub fn s93_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = c < 'b'; let exp: bool = true; got == exp }
pub fn c93_5() -> bool { let c: char = '\n'; let got: bool = c < 'b'; let exp: bool = true; got == exp }
pub fn s93_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = c < 'b'; let exp: bool = true; got == exp }
pub fn c93_6() -> bool { let c: char = '\u{e9}'; let got: bool = c < 'b'; let exp: bool = false; got == exp }
pub fn s93_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = c < 'b'; let exp: bool = false; got == exp }
pub fn c93_7() -> bool { let c: char = '\u{1f600}'; let got: bool = c < 'b'; let exp: bool = false; got == exp }
pub fn s93_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = c < 'b'; let exp: bool = false; got == exp }
pub fn c93_8() -> bool { let c: char = '\u{663}'; let got: bool = c < 'b'; let exp: bool = false; got == exp }
pub fn s93_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = c < 'b'; let exp: bool = false; got == exp }
pub fn c93_9() -> bool { let c: char = '\u{2028}'; let got: bool = c < 'b'; let exp: bool = false; got == exp }
pub fn s93_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = c < 'b'; let exp: bool = false; got == exp }
pub fn c93_10() -> bool { let c: char = ':'; let got: bool = c < 'b'; let exp: bool = true; got == exp }
pub fn s93_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = c < 'b'; let exp: bool = true; got == exp }
pub fn c94_0() -> bool { let c: char = 'a'; let got: usize = c.len_utf8(); let exp: usize = 1; got == exp }
pub fn s94_0(c: char) -> bool { if !(c == 'a') { return true; } let got: usize = c.len_utf8(); let exp: usize = 1; got == exp }
pub fn c94_1() -> bool { let c: char = 'Z'; let got: usize = c.len_utf8(); let exp: usize = 1; got == exp }
pub fn s94_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: usize = c.len_utf8(); let exp: usize = 1; got == exp }
pub fn c94_2() -> bool { let c: char = '0'; let got: usize = c.len_utf8(); let exp: usize = 1; got == exp }
pub fn s94_2(c: char) -> bool { if !(c == '0') { return true; } let got: usize = c.len_utf8(); let exp: usize = 1; got == exp }
pub fn c94_3() -> bool { let c: char = '_'; let got: usize = c.len_utf8(); let exp: usize = 1; got == exp }
pub fn s94_3(c: char) -> bool { if !(c == '_') { return true; } let got: usize = c.len_utf8(); let exp: usize = 1; got == exp }
pub fn c94_4() -> bool { let c: char = ' '; let got: usize = c.len_utf8(); let exp: usize = 1; got == exp }
pub fn s94_4(c: char) -> bool { if !(c == ' ') { return true; } let got: usize = c.len_utf8(); let exp: usize = 1; got == exp }
pub fn c94_5() -> bool { let c: char = '\n'; let got: usize = c.len_utf8(); let exp: usize = 1; got == exp }
pub fn s94_5(c: char) -> bool { if !(c == '\n') { return true; } let got: usize = c.len_utf8(); let exp: usize = 1; got == exp }
pub fn c94_6() -> bool { let c: char = '\u{e9}'; let got: usize = c.len_utf8(); let exp: usize = 2; got == exp }
pub fn s94_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: usize = c.len_utf8(); let exp: usize = 2; got == exp }
pub fn c94_7() -> bool { let c: char = '\u{1f600}'; let got: usize = c.len_utf8(); let exp: usize = 4; got == exp }
pub fn s94_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: usize = c.len_utf8(); let exp: usize = 4; got == exp }
pub fn c94_8() -> bool { let c: char = '\u{663}'; let got: usize = c.len_utf8(); let exp: usize = 2; got == exp }
pub fn s94_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: usize = c.len_utf8(); let exp: usize = 2; got == exp }
pub fn c94_9() -> bool { let c: char = '\u{2028}'; let got: usize = c.len_utf8(); let exp: usize = 3; got == exp }
pub fn s94_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: usize = c.len_utf8(); let exp: usize = 3; got == exp }
pub fn c94_10() -> bool { let c: char = ':'; let got: usize = c.len_utf8(); let exp: usize = 1; got == exp }
pub fn s94_10(c: char) -> bool { if !(c == ':') { return true; } let got: usize = c.len_utf8(); let exp: usize = 1; got == exp }
pub fn c95_0() -> bool { let c: char = 'a'; let got: String = c.to_string(); let exp: String = String::from("\u{61}"); got == exp }
pub fn s95_0(c: char) -> bool { if !(c == 'a') { return true; } let got: String = c.to_string(); let exp: String = String::from("\u{61}"); got == exp }
pub fn c95_1() -> bool { let c: char = 'Z'; let got: String = c.to_string(); let exp: String = String::from("\u{5a}"); got == exp }
pub fn s95_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: String = c.to_string(); let exp: String = String::from("\u{5a}"); got == exp }
pub fn c95_2() -> bool { let c: char = '0'; let got: String = c.to_string(); let exp: String = String::from("\u{30}"); got == exp }
pub fn s95_2(c: char) -> bool { if !(c == '0') { return true; } let got: String = c.to_string(); let exp: String = String::from("\u{30}"); got == exp }
pub fn c95_3() -> bool { let c: char = '_'; let got: String = c.to_string(); let exp: String = String::from("\u{5f}"); got == exp }
pub fn s95_3(c: char) -> bool { if !(c == '_') { return true; } let got: String = c.to_string(); let exp: String = String::from("\u{5f}"); got == exp }
pub fn c95_4() -> bool { let c: char = ' '; let got: String = c.to_string(); let exp: String = String::from("\u{20}"); got == exp }
pub fn s95_4(c: char) -> bool { if !(c == ' ') { return true; } let got: String = c.to_string(); let exp: String = String::from("\u{20}"); got == exp }
pub fn c95_5() -> bool { let c: char = '\n'; let got: String = c.to_string(); let exp: String = String::from("\u{a}"); got == exp }
pub fn s95_5(c: char) -> bool { if !(c == '\n') { return true; } let got: String = c.to_string(); let exp: String = String::from("\u{a}"); got == exp }
pub fn c95_6() -> bool { let c: char = '\u{e9}'; let got: String = c.to_string(); let exp: String = String::from("\u{e9}"); got == exp }
pub fn s95_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: String = c.to_string(); let exp: String = String::from("\u{e9}"); got == exp }
pub fn c95_7() -> bool { let c: char = '\u{1f600}'; let got: String = c.to_string(); let exp: String = String::from("\u{1f600}"); got == exp }
pub fn s95_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: String = c.to_string(); let exp: String = String::from("\u{1f600}"); got == exp }
pub fn c95_8() -> bool { let c: char = '\u{663}'; let got: String = c.to_string(); let exp: String = String::from("\u{663}"); got == exp }
pub fn s95_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: String = c.to_string(); let exp: String = String::from("\u{663}"); got == exp }
pub fn c95_9() -> bool { let c: char = '\u{2028}'; let got: String = c.to_string(); let exp: String = String::from("\u{2028}"); got == exp }
pub fn s95_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: String = c.to_string(); let exp: String = String::from("\u{2028}"); got == exp }
pub fn c95_10() -> bool { let c: char = ':'; let got: String = c.to_string(); let exp: String = String::from("\u{3a}"); got == exp }
pub fn s95_10(c: char) -> bool { if !(c == ':') { return true; } let got: String = c.to_string(); let exp: String = String::from("\u{3a}"); got == exp }
pub fn c96_0() -> bool { let c: char = 'a'; let got: u32 = c as u32; let exp: u32 = 97; got == exp }
pub fn s96_0(c: char) -> bool { if !(c == 'a') { return true; } let got: u32 = c as u32; let exp: u32 = 97; got == exp }
pub fn c96_1() -> bool { let c: char = 'Z'; let got: u32 = c as u32; let exp: u32 = 90; got == exp }
pub fn s96_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: u32 = c as u32; let exp: u32 = 90; got == exp }
pub fn c96_2() -> bool { let c: char = '0'; let got: u32 = c as u32; let exp: u32 = 48; got == exp }
pub fn s96_2(c: char) -> bool { if !(c == '0') { return true; } let got: u32 = c as u32; let exp: u32 = 48; got == exp }
pub fn c96_3() -> bool { let c: char = '_'; let got: u32 = c as u32; let exp: u32 = 95; got == exp }
pub fn s96_3(c: char) -> bool { if !(c == '_') { return true; } let got: u32 = c as u32; let exp: u32 = 95; got == exp }
pub fn c96_4() -> bool { let c: char = ' '; let got: u32 = c as u32; let exp: u32 = 32; got == exp }
pub fn s96_4(c: char) -> bool { if !(c == ' ') { return true; } let got: u32 = c as u32; let exp: u32 = 32; got == exp }
pub fn c96_5() -> bool { let c: char = '\n'; let got: u32 = c as u32; let exp: u32 = 10; got == exp }
pub fn s96_5(c: char) -> bool { if !(c == '\n') { return true; } let got: u32 = c as u32; let exp: u32 = 10; got == exp }
pub fn c96_6() -> bool { let c: char = '\u{e9}'; let got: u32 = c as u32; let exp: u32 = 233; got == exp }
pub fn s96_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: u32 = c as u32; let exp: u32 = 233; got == exp }
pub fn c96_7() -> bool { let c: char = '\u{1f600}'; let got: u32 = c as u32; let exp: u32 = 128512; got == exp }
pub fn s96_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: u32 = c as u32; let exp: u32 = 128512; got == exp }
pub fn c96_8() -> bool { let c: char = '\u{663}'; let got: u32 = c as u32; let exp: u32 = 1635; got == exp }
pub fn s96_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: u32 = c as u32; let exp: u32 = 1635; got == exp }
pub fn c96_9() -> bool { let c: char = '\u{2028}'; let got: u32 = c as u32; let exp: u32 = 8232; got == exp }
pub fn s96_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: u32 = c as u32; let exp: u32 = 8232; got == exp }
pub fn c96_10() -> bool { let c: char = ':'; let got: u32 = c as u32; let exp: u32 = 58; got == exp }
pub fn s96_10(c: char) -> bool { if !(c == ':') { return true; } let got: u32 = c as u32; let exp: u32 = 58; got == exp }
pub fn c97_0() -> bool { let a: i64 = 0; let b: i64 = 1; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(1); got == exp }
pub fn s97_0(a: i64, b: i64) -> bool { if !(a == 0 && b == 1) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(1); got == exp }
pub fn c97_1() -> bool { let a: i64 = 0; let b: i64 = -1; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(-1); got == exp }
pub fn s97_1(a: i64, b: i64) -> bool { if !(a == 0 && b == -1) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(-1); got == exp }
pub fn c97_2() -> bool { let a: i64 = 0; let b: i64 = 2; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(2); got == exp }
pub fn s97_2(a: i64, b: i64) -> bool { if !(a == 0 && b == 2) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(2); got == exp }
pub fn c97_3() -> bool { let a: i64 = 0; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(9223372036854775807); got == exp }
pub fn s97_3(a: i64, b: i64) -> bool { if !(a == 0 && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(9223372036854775807); got == exp }
pub fn c97_4() -> bool { let a: i64 = 0; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(i64::MIN); got == exp }
pub fn s97_4(a: i64, b: i64) -> bool { if !(a == 0 && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(i64::MIN); got == exp }
pub fn c97_5() -> bool { let a: i64 = 1; let b: i64 = 1; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(2); got == exp }
pub fn s97_5(a: i64, b: i64) -> bool { if !(a == 1 && b == 1) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(2); got == exp }
pub fn c97_6() -> bool { let a: i64 = 1; let b: i64 = -1; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(0); got == exp }
pub fn s97_6(a: i64, b: i64) -> bool { if !(a == 1 && b == -1) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(0); got == exp }
pub fn c97_7() -> bool { let a: i64 = 1; let b: i64 = 2; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(3); got == exp }
pub fn s97_7(a: i64, b: i64) -> bool { if !(a == 1 && b == 2) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(3); got == exp }
pub fn c97_8() -> bool { let a: i64 = 1; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn s97_8(a: i64, b: i64) -> bool { if !(a == 1 && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn c97_9() -> bool { let a: i64 = 1; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(-9223372036854775807); got == exp }
pub fn s97_9(a: i64, b: i64) -> bool { if !(a == 1 && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(-9223372036854775807); got == exp }
pub fn c97_10() -> bool { let a: i64 = -1; let b: i64 = 1; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(0); got == exp }
pub fn s97_10(a: i64, b: i64) -> bool { if !(a == -1 && b == 1) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(0); got == exp }
pub fn c97_11() -> bool { let a: i64 = -1; let b: i64 = -1; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(-2); got == exp }
pub fn s97_11(a: i64, b: i64) -> bool { if !(a == -1 && b == -1) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(-2); got == exp }
pub fn c97_12() -> bool { let a: i64 = -1; let b: i64 = 2; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(1); got == exp }
pub fn s97_12(a: i64, b: i64) -> bool { if !(a == -1 && b == 2) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(1); got == exp }
pub fn c97_13() -> bool { let a: i64 = -1; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(9223372036854775806); got == exp }
pub fn s97_13(a: i64, b: i64) -> bool { if !(a == -1 && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(9223372036854775806); got == exp }
pub fn c97_14() -> bool { let a: i64 = -1; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn s97_14(a: i64, b: i64) -> bool { if !(a == -1 && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn c97_15() -> bool { let a: i64 = 41; let b: i64 = 1; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(42); got == exp }
pub fn s97_15(a: i64, b: i64) -> bool { if !(a == 41 && b == 1) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(42); got == exp }
pub fn c97_16() -> bool { let a: i64 = 41; let b: i64 = -1; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(40); got == exp }
pub fn s97_16(a: i64, b: i64) -> bool { if !(a == 41 && b == -1) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(40); got == exp }
pub fn c97_17() -> bool { let a: i64 = 41; let b: i64 = 2; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(43); got == exp }
pub fn s97_17(a: i64, b: i64) -> bool { if !(a == 41 && b == 2) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(43); got == exp }
pub fn c97_18() -> bool { let a: i64 = 41; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn s97_18(a: i64, b: i64) -> bool { if !(a == 41 && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn c97_19() -> bool { let a: i64 = 41; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(-9223372036854775767); got == exp }
pub fn s97_19(a: i64, b: i64) -> bool { if !(a == 41 && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(-9223372036854775767); got == exp }
pub fn c97_20() -> bool { let a: i64 = i64::MAX; let b: i64 = 1; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn s97_20(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == 1) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn c97_21() -> bool { let a: i64 = i64::MAX; let b: i64 = -1; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(9223372036854775806); got == exp }
pub fn s97_21(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == -1) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(9223372036854775806); got == exp }
pub fn c97_22() -> bool { let a: i64 = i64::MAX; let b: i64 = 2; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn s97_22(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == 2) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn c97_23() -> bool { let a: i64 = i64::MAX; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn s97_23(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn c97_24() -> bool { let a: i64 = i64::MAX; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(-1); got == exp }
pub fn s97_24(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(-1); got == exp }
pub fn c97_25() -> bool { let a: i64 = i64::MIN; let b: i64 = 1; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(-9223372036854775807); got == exp }
pub fn s97_25(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == 1) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(-9223372036854775807); got == exp }
pub fn c97_26() -> bool { let a: i64 = i64::MIN; let b: i64 = -1; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn s97_26(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == -1) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn c97_27() -> bool { let a: i64 = i64::MIN; let b: i64 = 2; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(-9223372036854775806); got == exp }
pub fn s97_27(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == 2) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(-9223372036854775806); got == exp }
pub fn c97_28() -> bool { let a: i64 = i64::MIN; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(-1); got == exp }
pub fn s97_28(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(-1); got == exp }
pub fn c97_29() -> bool { let a: i64 = i64::MIN; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn s97_29(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn c97_30() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = 1; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(9223372036854775807); got == exp }
pub fn s97_30(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == 1) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(9223372036854775807); got == exp }
pub fn c97_31() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = -1; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(9223372036854775805); got == exp }
pub fn s97_31(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == -1) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(9223372036854775805); got == exp }
pub fn c97_32() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = 2; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn s97_32(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == 2) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn c97_33() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn s97_33(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = None; got == exp }
pub fn c97_34() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(-2); got == exp }
pub fn s97_34(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_add(b); let exp: Option<i64> = Some(-2); got == exp }
pub fn c98_0() -> bool { let a: i64 = 0; let b: i64 = 1; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-1); got == exp }
pub fn s98_0(a: i64, b: i64) -> bool { if !(a == 0 && b == 1) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-1); got == exp }
pub fn c98_1() -> bool { let a: i64 = 0; let b: i64 = -1; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(1); got == exp }
pub fn s98_1(a: i64, b: i64) -> bool { if !(a == 0 && b == -1) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(1); got == exp }
pub fn c98_2() -> bool { let a: i64 = 0; let b: i64 = 2; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-2); got == exp }
pub fn s98_2(a: i64, b: i64) -> bool { if !(a == 0 && b == 2) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-2); got == exp }
pub fn c98_3() -> bool { let a: i64 = 0; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-9223372036854775807); got == exp }
pub fn s98_3(a: i64, b: i64) -> bool { if !(a == 0 && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-9223372036854775807); got == exp }
pub fn c98_4() -> bool { let a: i64 = 0; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = None; got == exp }
pub fn s98_4(a: i64, b: i64) -> bool { if !(a == 0 && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = None; got == exp }
pub fn c98_5() -> bool { let a: i64 = 1; let b: i64 = 1; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(0); got == exp }
pub fn s98_5(a: i64, b: i64) -> bool { if !(a == 1 && b == 1) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(0); got == exp }
pub fn c98_6() -> bool { let a: i64 = 1; let b: i64 = -1; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(2); got == exp }
pub fn s98_6(a: i64, b: i64) -> bool { if !(a == 1 && b == -1) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(2); got == exp }
pub fn c98_7() -> bool { let a: i64 = 1; let b: i64 = 2; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-1); got == exp }
pub fn s98_7(a: i64, b: i64) -> bool { if !(a == 1 && b == 2) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-1); got == exp }
pub fn c98_8() -> bool { let a: i64 = 1; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-9223372036854775806); got == exp }
pub fn s98_8(a: i64, b: i64) -> bool { if !(a == 1 && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-9223372036854775806); got == exp }
pub fn c98_9() -> bool { let a: i64 = 1; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = None; got == exp }
pub fn s98_9(a: i64, b: i64) -> bool { if !(a == 1 && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = None; got == exp }
pub fn c98_10() -> bool { let a: i64 = -1; let b: i64 = 1; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-2); got == exp }
pub fn s98_10(a: i64, b: i64) -> bool { if !(a == -1 && b == 1) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-2); got == exp }
pub fn c98_11() -> bool { let a: i64 = -1; let b: i64 = -1; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(0); got == exp }
pub fn s98_11(a: i64, b: i64) -> bool { if !(a == -1 && b == -1) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(0); got == exp }
pub fn c98_12() -> bool { let a: i64 = -1; let b: i64 = 2; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-3); got == exp }
pub fn s98_12(a: i64, b: i64) -> bool { if !(a == -1 && b == 2) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-3); got == exp }
pub fn c98_13() -> bool { let a: i64 = -1; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(i64::MIN); got == exp }
pub fn s98_13(a: i64, b: i64) -> bool { if !(a == -1 && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(i64::MIN); got == exp }
pub fn c98_14() -> bool { let a: i64 = -1; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(9223372036854775807); got == exp }
pub fn s98_14(a: i64, b: i64) -> bool { if !(a == -1 && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(9223372036854775807); got == exp }
pub fn c98_15() -> bool { let a: i64 = 41; let b: i64 = 1; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(40); got == exp }
pub fn s98_15(a: i64, b: i64) -> bool { if !(a == 41 && b == 1) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(40); got == exp }
pub fn c98_16() -> bool { let a: i64 = 41; let b: i64 = -1; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(42); got == exp }
pub fn s98_16(a: i64, b: i64) -> bool { if !(a == 41 && b == -1) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(42); got == exp }
pub fn c98_17() -> bool { let a: i64 = 41; let b: i64 = 2; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(39); got == exp }
pub fn s98_17(a: i64, b: i64) -> bool { if !(a == 41 && b == 2) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(39); got == exp }
pub fn c98_18() -> bool { let a: i64 = 41; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-9223372036854775766); got == exp }
pub fn s98_18(a: i64, b: i64) -> bool { if !(a == 41 && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-9223372036854775766); got == exp }
pub fn c98_19() -> bool { let a: i64 = 41; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = None; got == exp }
pub fn s98_19(a: i64, b: i64) -> bool { if !(a == 41 && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = None; got == exp }
pub fn c98_20() -> bool { let a: i64 = i64::MAX; let b: i64 = 1; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(9223372036854775806); got == exp }
pub fn s98_20(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == 1) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(9223372036854775806); got == exp }
pub fn c98_21() -> bool { let a: i64 = i64::MAX; let b: i64 = -1; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = None; got == exp }
pub fn s98_21(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == -1) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = None; got == exp }
pub fn c98_22() -> bool { let a: i64 = i64::MAX; let b: i64 = 2; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(9223372036854775805); got == exp }
pub fn s98_22(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == 2) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(9223372036854775805); got == exp }
pub fn c98_23() -> bool { let a: i64 = i64::MAX; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(0); got == exp }
pub fn s98_23(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(0); got == exp }
pub fn c98_24() -> bool { let a: i64 = i64::MAX; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = None; got == exp }
pub fn s98_24(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = None; got == exp }
pub fn c98_25() -> bool { let a: i64 = i64::MIN; let b: i64 = 1; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = None; got == exp }
pub fn s98_25(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == 1) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = None; got == exp }
pub fn c98_26() -> bool { let a: i64 = i64::MIN; let b: i64 = -1; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-9223372036854775807); got == exp }
pub fn s98_26(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == -1) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-9223372036854775807); got == exp }
pub fn c98_27() -> bool { let a: i64 = i64::MIN; let b: i64 = 2; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = None; got == exp }
pub fn s98_27(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == 2) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = None; got == exp }
pub fn c98_28() -> bool { let a: i64 = i64::MIN; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = None; got == exp }
pub fn s98_28(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = None; got == exp }
pub fn c98_29() -> bool { let a: i64 = i64::MIN; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(0); got == exp }
pub fn s98_29(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(0); got == exp }
pub fn c98_30() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = 1; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(9223372036854775805); got == exp }
pub fn s98_30(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == 1) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(9223372036854775805); got == exp }
pub fn c98_31() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = -1; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(9223372036854775807); got == exp }
pub fn s98_31(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == -1) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(9223372036854775807); got == exp }
pub fn c98_32() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = 2; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(9223372036854775804); got == exp }
pub fn s98_32(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == 2) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(9223372036854775804); got == exp }
pub fn c98_33() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-1); got == exp }
pub fn s98_33(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = Some(-1); got == exp }
pub fn c98_34() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = None; got == exp }
pub fn s98_34(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_sub(b); let exp: Option<i64> = None; got == exp }
pub fn c99_0() -> bool { let a: i64 = 0; let b: i64 = 1; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(0); got == exp }
pub fn s99_0(a: i64, b: i64) -> bool { if !(a == 0 && b == 1) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(0); got == exp }
pub fn c99_1() -> bool { let a: i64 = 0; let b: i64 = -1; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(0); got == exp }
pub fn s99_1(a: i64, b: i64) -> bool { if !(a == 0 && b == -1) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(0); got == exp }
pub fn c99_2() -> bool { let a: i64 = 0; let b: i64 = 2; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(0); got == exp }
pub fn s99_2(a: i64, b: i64) -> bool { if !(a == 0 && b == 2) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(0); got == exp }
pub fn c99_3() -> bool { let a: i64 = 0; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(0); got == exp }
pub fn s99_3(a: i64, b: i64) -> bool { if !(a == 0 && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(0); got == exp }
pub fn c99_4() -> bool { let a: i64 = 0; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(0); got == exp }
pub fn s99_4(a: i64, b: i64) -> bool { if !(a == 0 && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(0); got == exp }
pub fn c99_5() -> bool { let a: i64 = 1; let b: i64 = 1; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(1); got == exp }
pub fn s99_5(a: i64, b: i64) -> bool { if !(a == 1 && b == 1) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(1); got == exp }
pub fn c99_6() -> bool { let a: i64 = 1; let b: i64 = -1; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(-1); got == exp }
pub fn s99_6(a: i64, b: i64) -> bool { if !(a == 1 && b == -1) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(-1); got == exp }
pub fn c99_7() -> bool { let a: i64 = 1; let b: i64 = 2; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(2); got == exp }
pub fn s99_7(a: i64, b: i64) -> bool { if !(a == 1 && b == 2) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(2); got == exp }
pub fn c99_8() -> bool { let a: i64 = 1; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(9223372036854775807); got == exp }
pub fn s99_8(a: i64, b: i64) -> bool { if !(a == 1 && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(9223372036854775807); got == exp }
pub fn c99_9() -> bool { let a: i64 = 1; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(i64::MIN); got == exp }
pub fn s99_9(a: i64, b: i64) -> bool { if !(a == 1 && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(i64::MIN); got == exp }
pub fn c99_10() -> bool { let a: i64 = -1; let b: i64 = 1; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(-1); got == exp }
pub fn s99_10(a: i64, b: i64) -> bool { if !(a == -1 && b == 1) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(-1); got == exp }
pub fn c99_11() -> bool { let a: i64 = -1; let b: i64 = -1; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(1); got == exp }
pub fn s99_11(a: i64, b: i64) -> bool { if !(a == -1 && b == -1) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(1); got == exp }
pub fn c99_12() -> bool { let a: i64 = -1; let b: i64 = 2; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(-2); got == exp }
pub fn s99_12(a: i64, b: i64) -> bool { if !(a == -1 && b == 2) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(-2); got == exp }
pub fn c99_13() -> bool { let a: i64 = -1; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(-9223372036854775807); got == exp }
pub fn s99_13(a: i64, b: i64) -> bool { if !(a == -1 && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(-9223372036854775807); got == exp }
pub fn c99_14() -> bool { let a: i64 = -1; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn s99_14(a: i64, b: i64) -> bool { if !(a == -1 && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn c99_15() -> bool { let a: i64 = 41; let b: i64 = 1; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(41); got == exp }
pub fn s99_15(a: i64, b: i64) -> bool { if !(a == 41 && b == 1) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(41); got == exp }
pub fn c99_16() -> bool { let a: i64 = 41; let b: i64 = -1; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(-41); got == exp }
pub fn s99_16(a: i64, b: i64) -> bool { if !(a == 41 && b == -1) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(-41); got == exp }
pub fn c99_17() -> bool { let a: i64 = 41; let b: i64 = 2; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(82); got == exp }
pub fn s99_17(a: i64, b: i64) -> bool { if !(a == 41 && b == 2) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(82); got == exp }
pub fn c99_18() -> bool { let a: i64 = 41; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn s99_18(a: i64, b: i64) -> bool { if !(a == 41 && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn c99_19() -> bool { let a: i64 = 41; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn s99_19(a: i64, b: i64) -> bool { if !(a == 41 && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn c99_20() -> bool { let a: i64 = i64::MAX; let b: i64 = 1; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(9223372036854775807); got == exp }
pub fn s99_20(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == 1) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(9223372036854775807); got == exp }
pub fn c99_21() -> bool { let a: i64 = i64::MAX; let b: i64 = -1; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(-9223372036854775807); got == exp }
pub fn s99_21(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == -1) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(-9223372036854775807); got == exp }
pub fn c99_22() -> bool { let a: i64 = i64::MAX; let b: i64 = 2; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn s99_22(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == 2) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn c99_23() -> bool { let a: i64 = i64::MAX; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn s99_23(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn c99_24() -> bool { let a: i64 = i64::MAX; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn s99_24(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn c99_25() -> bool { let a: i64 = i64::MIN; let b: i64 = 1; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(i64::MIN); got == exp }
pub fn s99_25(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == 1) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(i64::MIN); got == exp }
pub fn c99_26() -> bool { let a: i64 = i64::MIN; let b: i64 = -1; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn s99_26(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == -1) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn c99_27() -> bool { let a: i64 = i64::MIN; let b: i64 = 2; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn s99_27(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == 2) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn c99_28() -> bool { let a: i64 = i64::MIN; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn s99_28(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn c99_29() -> bool { let a: i64 = i64::MIN; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn s99_29(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn c99_30() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = 1; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(9223372036854775806); got == exp }
pub fn s99_30(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == 1) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(9223372036854775806); got == exp }
pub fn c99_31() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = -1; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(-9223372036854775806); got == exp }
pub fn s99_31(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == -1) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = Some(-9223372036854775806); got == exp }
pub fn c99_32() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = 2; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn s99_32(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == 2) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn c99_33() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = i64::MAX; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn s99_33(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == i64::MAX) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn c99_34() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = i64::MIN; let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn s99_34(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == i64::MIN) { return true; } let got: Option<i64> = a.checked_mul(b); let exp: Option<i64> = None; got == exp }
pub fn c100_0() -> bool { let a: i64 = 0; let b: i64 = 1; let got: i64 = a.saturating_add(b); let exp: i64 = 1; got == exp }
pub fn s100_0(a: i64, b: i64) -> bool { if !(a == 0 && b == 1) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = 1; got == exp }
pub fn c100_1() -> bool { let a: i64 = 0; let b: i64 = -1; let got: i64 = a.saturating_add(b); let exp: i64 = -1; got == exp }
pub fn s100_1(a: i64, b: i64) -> bool { if !(a == 0 && b == -1) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = -1; got == exp }
pub fn c100_2() -> bool { let a: i64 = 0; let b: i64 = i64::MIN; let got: i64 = a.saturating_add(b); let exp: i64 = i64::MIN; got == exp }
pub fn s100_2(a: i64, b: i64) -> bool { if !(a == 0 && b == i64::MIN) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = i64::MIN; got == exp }
pub fn c100_3() -> bool { let a: i64 = 1; let b: i64 = 1; let got: i64 = a.saturating_add(b); let exp: i64 = 2; got == exp }
pub fn s100_3(a: i64, b: i64) -> bool { if !(a == 1 && b == 1) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = 2; got == exp }
pub fn c100_4() -> bool { let a: i64 = 1; let b: i64 = -1; let got: i64 = a.saturating_add(b); let exp: i64 = 0; got == exp }
pub fn s100_4(a: i64, b: i64) -> bool { if !(a == 1 && b == -1) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = 0; got == exp }
pub fn c100_5() -> bool { let a: i64 = 1; let b: i64 = i64::MIN; let got: i64 = a.saturating_add(b); let exp: i64 = -9223372036854775807; got == exp }
pub fn s100_5(a: i64, b: i64) -> bool { if !(a == 1 && b == i64::MIN) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = -9223372036854775807; got == exp }
pub fn c100_6() -> bool { let a: i64 = -1; let b: i64 = 1; let got: i64 = a.saturating_add(b); let exp: i64 = 0; got == exp }
pub fn s100_6(a: i64, b: i64) -> bool { if !(a == -1 && b == 1) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = 0; got == exp }
pub fn c100_7() -> bool { let a: i64 = -1; let b: i64 = -1; let got: i64 = a.saturating_add(b); let exp: i64 = -2; got == exp }
pub fn s100_7(a: i64, b: i64) -> bool { if !(a == -1 && b == -1) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = -2; got == exp }
pub fn c100_8() -> bool { let a: i64 = -1; let b: i64 = i64::MIN; let got: i64 = a.saturating_add(b); let exp: i64 = i64::MIN; got == exp }
pub fn s100_8(a: i64, b: i64) -> bool { if !(a == -1 && b == i64::MIN) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = i64::MIN; got == exp }
pub fn c100_9() -> bool { let a: i64 = 41; let b: i64 = 1; let got: i64 = a.saturating_add(b); let exp: i64 = 42; got == exp }
pub fn s100_9(a: i64, b: i64) -> bool { if !(a == 41 && b == 1) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = 42; got == exp }
pub fn c100_10() -> bool { let a: i64 = 41; let b: i64 = -1; let got: i64 = a.saturating_add(b); let exp: i64 = 40; got == exp }
pub fn s100_10(a: i64, b: i64) -> bool { if !(a == 41 && b == -1) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = 40; got == exp }
pub fn c100_11() -> bool { let a: i64 = 41; let b: i64 = i64::MIN; let got: i64 = a.saturating_add(b); let exp: i64 = -9223372036854775767; got == exp }
pub fn s100_11(a: i64, b: i64) -> bool { if !(a == 41 && b == i64::MIN) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = -9223372036854775767; got == exp }
pub fn c100_12() -> bool { let a: i64 = i64::MAX; let b: i64 = 1; let got: i64 = a.saturating_add(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn s100_12(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == 1) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn c100_13() -> bool { let a: i64 = i64::MAX; let b: i64 = -1; let got: i64 = a.saturating_add(b); let exp: i64 = 9223372036854775806; got == exp }
pub fn s100_13(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == -1) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = 9223372036854775806; got == exp }
pub fn c100_14() -> bool { let a: i64 = i64::MAX; let b: i64 = i64::MIN; let got: i64 = a.saturating_add(b); let exp: i64 = -1; got == exp }
pub fn s100_14(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == i64::MIN) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = -1; got == exp }
pub fn c100_15() -> bool { let a: i64 = i64::MIN; let b: i64 = 1; let got: i64 = a.saturating_add(b); let exp: i64 = -9223372036854775807; got == exp }
pub fn s100_15(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == 1) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = -9223372036854775807; got == exp }
pub fn c100_16() -> bool { let a: i64 = i64::MIN; let b: i64 = -1; let got: i64 = a.saturating_add(b); let exp: i64 = i64::MIN; got == exp }
pub fn s100_16(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == -1) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = i64::MIN; got == exp }
pub fn c100_17() -> bool { let a: i64 = i64::MIN; let b: i64 = i64::MIN; let got: i64 = a.saturating_add(b); let exp: i64 = i64::MIN; got == exp }
pub fn s100_17(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == i64::MIN) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = i64::MIN; got == exp }
pub fn c100_18() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = 1; let got: i64 = a.saturating_add(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn s100_18(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == 1) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn c100_19() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = -1; let got: i64 = a.saturating_add(b); let exp: i64 = 9223372036854775805; got == exp }
pub fn s100_19(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == -1) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = 9223372036854775805; got == exp }
pub fn c100_20() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = i64::MIN; let got: i64 = a.saturating_add(b); let exp: i64 = -2; got == exp }
pub fn s100_20(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == i64::MIN) { return true; } let got: i64 = a.saturating_add(b); let exp: i64 = -2; got == exp }
pub fn c101_0() -> bool { let a: i64 = 0; let b: i64 = 1; let got: i64 = a.saturating_sub(b); let exp: i64 = -1; got == exp }
pub fn s101_0(a: i64, b: i64) -> bool { if !(a == 0 && b == 1) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = -1; got == exp }
pub fn c101_1() -> bool { let a: i64 = 0; let b: i64 = -1; let got: i64 = a.saturating_sub(b); let exp: i64 = 1; got == exp }
pub fn s101_1(a: i64, b: i64) -> bool { if !(a == 0 && b == -1) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = 1; got == exp }
pub fn c101_2() -> bool { let a: i64 = 0; let b: i64 = i64::MIN; let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn s101_2(a: i64, b: i64) -> bool { if !(a == 0 && b == i64::MIN) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn c101_3() -> bool { let a: i64 = 1; let b: i64 = 1; let got: i64 = a.saturating_sub(b); let exp: i64 = 0; got == exp }
pub fn s101_3(a: i64, b: i64) -> bool { if !(a == 1 && b == 1) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = 0; got == exp }
pub fn c101_4() -> bool { let a: i64 = 1; let b: i64 = -1; let got: i64 = a.saturating_sub(b); let exp: i64 = 2; got == exp }
pub fn s101_4(a: i64, b: i64) -> bool { if !(a == 1 && b == -1) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = 2; got == exp }
pub fn c101_5() -> bool { let a: i64 = 1; let b: i64 = i64::MIN; let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn s101_5(a: i64, b: i64) -> bool { if !(a == 1 && b == i64::MIN) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn c101_6() -> bool { let a: i64 = -1; let b: i64 = 1; let got: i64 = a.saturating_sub(b); let exp: i64 = -2; got == exp }
pub fn s101_6(a: i64, b: i64) -> bool { if !(a == -1 && b == 1) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = -2; got == exp }
pub fn c101_7() -> bool { let a: i64 = -1; let b: i64 = -1; let got: i64 = a.saturating_sub(b); let exp: i64 = 0; got == exp }
pub fn s101_7(a: i64, b: i64) -> bool { if !(a == -1 && b == -1) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = 0; got == exp }
pub fn c101_8() -> bool { let a: i64 = -1; let b: i64 = i64::MIN; let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn s101_8(a: i64, b: i64) -> bool { if !(a == -1 && b == i64::MIN) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn c101_9() -> bool { let a: i64 = 41; let b: i64 = 1; let got: i64 = a.saturating_sub(b); let exp: i64 = 40; got == exp }
pub fn s101_9(a: i64, b: i64) -> bool { if !(a == 41 && b == 1) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = 40; got == exp }
pub fn c101_10() -> bool { let a: i64 = 41; let b: i64 = -1; let got: i64 = a.saturating_sub(b); let exp: i64 = 42; got == exp }
pub fn s101_10(a: i64, b: i64) -> bool { if !(a == 41 && b == -1) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = 42; got == exp }
pub fn c101_11() -> bool { let a: i64 = 41; let b: i64 = i64::MIN; let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn s101_11(a: i64, b: i64) -> bool { if !(a == 41 && b == i64::MIN) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn c101_12() -> bool { let a: i64 = i64::MAX; let b: i64 = 1; let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775806; got == exp }
pub fn s101_12(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == 1) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775806; got == exp }
pub fn c101_13() -> bool { let a: i64 = i64::MAX; let b: i64 = -1; let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn s101_13(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == -1) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn c101_14() -> bool { let a: i64 = i64::MAX; let b: i64 = i64::MIN; let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn s101_14(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == i64::MIN) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn c101_15() -> bool { let a: i64 = i64::MIN; let b: i64 = 1; let got: i64 = a.saturating_sub(b); let exp: i64 = i64::MIN; got == exp }
pub fn s101_15(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == 1) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = i64::MIN; got == exp }
pub fn c101_16() -> bool { let a: i64 = i64::MIN; let b: i64 = -1; let got: i64 = a.saturating_sub(b); let exp: i64 = -9223372036854775807; got == exp }
pub fn s101_16(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == -1) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = -9223372036854775807; got == exp }
pub fn c101_17() -> bool { let a: i64 = i64::MIN; let b: i64 = i64::MIN; let got: i64 = a.saturating_sub(b); let exp: i64 = 0; got == exp }
pub fn s101_17(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == i64::MIN) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = 0; got == exp }
pub fn c101_18() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = 1; let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775805; got == exp }
pub fn s101_18(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == 1) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775805; got == exp }
pub fn c101_19() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = -1; let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn s101_19(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == -1) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn c101_20() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = i64::MIN; let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn s101_20(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == i64::MIN) { return true; } let got: i64 = a.saturating_sub(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn c102_0() -> bool { let a: i64 = 0; let b: i64 = 1; let got: i64 = a.saturating_mul(b); let exp: i64 = 0; got == exp }
pub fn s102_0(a: i64, b: i64) -> bool { if !(a == 0 && b == 1) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = 0; got == exp }
pub fn c102_1() -> bool { let a: i64 = 0; let b: i64 = -1; let got: i64 = a.saturating_mul(b); let exp: i64 = 0; got == exp }
pub fn s102_1(a: i64, b: i64) -> bool { if !(a == 0 && b == -1) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = 0; got == exp }
pub fn c102_2() -> bool { let a: i64 = 0; let b: i64 = i64::MIN; let got: i64 = a.saturating_mul(b); let exp: i64 = 0; got == exp }
pub fn s102_2(a: i64, b: i64) -> bool { if !(a == 0 && b == i64::MIN) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = 0; got == exp }
pub fn c102_3() -> bool { let a: i64 = 1; let b: i64 = 1; let got: i64 = a.saturating_mul(b); let exp: i64 = 1; got == exp }
pub fn s102_3(a: i64, b: i64) -> bool { if !(a == 1 && b == 1) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = 1; got == exp }
pub fn c102_4() -> bool { let a: i64 = 1; let b: i64 = -1; let got: i64 = a.saturating_mul(b); let exp: i64 = -1; got == exp }
pub fn s102_4(a: i64, b: i64) -> bool { if !(a == 1 && b == -1) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = -1; got == exp }
pub fn c102_5() -> bool { let a: i64 = 1; let b: i64 = i64::MIN; let got: i64 = a.saturating_mul(b); let exp: i64 = i64::MIN; got == exp }
pub fn s102_5(a: i64, b: i64) -> bool { if !(a == 1 && b == i64::MIN) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = i64::MIN; got == exp }
pub fn c102_6() -> bool { let a: i64 = -1; let b: i64 = 1; let got: i64 = a.saturating_mul(b); let exp: i64 = -1; got == exp }
pub fn s102_6(a: i64, b: i64) -> bool { if !(a == -1 && b == 1) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = -1; got == exp }
pub fn c102_7() -> bool { let a: i64 = -1; let b: i64 = -1; let got: i64 = a.saturating_mul(b); let exp: i64 = 1; got == exp }
pub fn s102_7(a: i64, b: i64) -> bool { if !(a == -1 && b == -1) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = 1; got == exp }
pub fn c102_8() -> bool { let a: i64 = -1; let b: i64 = i64::MIN; let got: i64 = a.saturating_mul(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn s102_8(a: i64, b: i64) -> bool { if !(a == -1 && b == i64::MIN) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn c102_9() -> bool { let a: i64 = 41; let b: i64 = 1; let got: i64 = a.saturating_mul(b); let exp: i64 = 41; got == exp }
pub fn s102_9(a: i64, b: i64) -> bool { if !(a == 41 && b == 1) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = 41; got == exp }
pub fn c102_10() -> bool { let a: i64 = 41; let b: i64 = -1; let got: i64 = a.saturating_mul(b); let exp: i64 = -41; got == exp }
pub fn s102_10(a: i64, b: i64) -> bool { if !(a == 41 && b == -1) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = -41; got == exp }
pub fn c102_11() -> bool { let a: i64 = 41; let b: i64 = i64::MIN; let got: i64 = a.saturating_mul(b); let exp: i64 = i64::MIN; got == exp }
pub fn s102_11(a: i64, b: i64) -> bool { if !(a == 41 && b == i64::MIN) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = i64::MIN; got == exp }
pub fn c102_12() -> bool { let a: i64 = i64::MAX; let b: i64 = 1; let got: i64 = a.saturating_mul(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn s102_12(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == 1) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn c102_13() -> bool { let a: i64 = i64::MAX; let b: i64 = -1; let got: i64 = a.saturating_mul(b); let exp: i64 = -9223372036854775807; got == exp }
pub fn s102_13(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == -1) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = -9223372036854775807; got == exp }
pub fn c102_14() -> bool { let a: i64 = i64::MAX; let b: i64 = i64::MIN; let got: i64 = a.saturating_mul(b); let exp: i64 = i64::MIN; got == exp }
pub fn s102_14(a: i64, b: i64) -> bool { if !(a == i64::MAX && b == i64::MIN) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = i64::MIN; got == exp }
pub fn c102_15() -> bool { let a: i64 = i64::MIN; let b: i64 = 1; let got: i64 = a.saturating_mul(b); let exp: i64 = i64::MIN; got == exp }
pub fn s102_15(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == 1) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = i64::MIN; got == exp }
pub fn c102_16() -> bool { let a: i64 = i64::MIN; let b: i64 = -1; let got: i64 = a.saturating_mul(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn s102_16(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == -1) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn c102_17() -> bool { let a: i64 = i64::MIN; let b: i64 = i64::MIN; let got: i64 = a.saturating_mul(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn s102_17(a: i64, b: i64) -> bool { if !(a == i64::MIN && b == i64::MIN) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = 9223372036854775807; got == exp }
pub fn c102_18() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = 1; let got: i64 = a.saturating_mul(b); let exp: i64 = 9223372036854775806; got == exp }
pub fn s102_18(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == 1) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = 9223372036854775806; got == exp }
pub fn c102_19() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = -1; let got: i64 = a.saturating_mul(b); let exp: i64 = -9223372036854775806; got == exp }
pub fn s102_19(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == -1) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = -9223372036854775806; got == exp }
pub fn c102_20() -> bool { let a: i64 = i64::MAX - 1; let b: i64 = i64::MIN; let got: i64 = a.saturating_mul(b); let exp: i64 = i64::MIN; got == exp }
pub fn s102_20(a: i64, b: i64) -> bool { if !(a == i64::MAX - 1 && b == i64::MIN) { return true; } let got: i64 = a.saturating_mul(b); let exp: i64 = i64::MIN; got == exp }
pub fn c103_0() -> bool { let a: u32 = 0; let b: u32 = 0; let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(0); got == exp }
pub fn s103_0(a: u32, b: u32) -> bool { if !(a == 0 && b == 0) { return true; } let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(0); got == exp }
pub fn c103_1() -> bool { let a: u32 = 0; let b: u32 = 1; let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(1); got == exp }
pub fn s103_1(a: u32, b: u32) -> bool { if !(a == 0 && b == 1) { return true; } let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(1); got == exp }
pub fn c103_2() -> bool { let a: u32 = 0; let b: u32 = 7; let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(7); got == exp }
pub fn s103_2(a: u32, b: u32) -> bool { if !(a == 0 && b == 7) { return true; } let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(7); got == exp }
pub fn c103_3() -> bool { let a: u32 = 0; let b: u32 = u32::MAX; let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(4294967295); got == exp }
pub fn s103_3(a: u32, b: u32) -> bool { if !(a == 0 && b == u32::MAX) { return true; } let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(4294967295); got == exp }
pub fn c103_4() -> bool { let a: u32 = 1; let b: u32 = 0; let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(1); got == exp }
pub fn s103_4(a: u32, b: u32) -> bool { if !(a == 1 && b == 0) { return true; } let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(1); got == exp }
pub fn c103_5() -> bool { let a: u32 = 1; let b: u32 = 1; let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(2); got == exp }
pub fn s103_5(a: u32, b: u32) -> bool { if !(a == 1 && b == 1) { return true; } let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(2); got == exp }
pub fn c103_6() -> bool { let a: u32 = 1; let b: u32 = 7; let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(8); got == exp }
pub fn s103_6(a: u32, b: u32) -> bool { if !(a == 1 && b == 7) { return true; } let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(8); got == exp }
pub fn c103_7() -> bool { let a: u32 = 1; let b: u32 = u32::MAX; let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = None; got == exp }
pub fn s103_7(a: u32, b: u32) -> bool { if !(a == 1 && b == u32::MAX) { return true; } let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = None; got == exp }
pub fn c103_8() -> bool { let a: u32 = 7; let b: u32 = 0; let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(7); got == exp }
pub fn s103_8(a: u32, b: u32) -> bool { if !(a == 7 && b == 0) { return true; } let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(7); got == exp }
pub fn c103_9() -> bool { let a: u32 = 7; let b: u32 = 1; let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(8); got == exp }
pub fn s103_9(a: u32, b: u32) -> bool { if !(a == 7 && b == 1) { return true; } let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(8); got == exp }
pub fn c103_10() -> bool { let a: u32 = 7; let b: u32 = 7; let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(14); got == exp }
pub fn s103_10(a: u32, b: u32) -> bool { if !(a == 7 && b == 7) { return true; } let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(14); got == exp }
pub fn c103_11() -> bool { let a: u32 = 7; let b: u32 = u32::MAX; let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = None; got == exp }
pub fn s103_11(a: u32, b: u32) -> bool { if !(a == 7 && b == u32::MAX) { return true; } let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = None; got == exp }
pub fn c103_12() -> bool { let a: u32 = u32::MAX; let b: u32 = 0; let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(4294967295); got == exp }
pub fn s103_12(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 0) { return true; } let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = Some(4294967295); got == exp }
pub fn c103_13() -> bool { let a: u32 = u32::MAX; let b: u32 = 1; let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = None; got == exp }
pub fn s103_13(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 1) { return true; } let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = None; got == exp }
pub fn c103_14() -> bool { let a: u32 = u32::MAX; let b: u32 = 7; let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = None; got == exp }
pub fn s103_14(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 7) { return true; } let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = None; got == exp }
pub fn c103_15() -> bool { let a: u32 = u32::MAX; let b: u32 = u32::MAX; let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = None; got == exp }
pub fn s103_15(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == u32::MAX) { return true; } let got: Option<u32> = a.checked_add(b); let exp: Option<u32> = None; got == exp }
pub fn c104_0() -> bool { let a: u32 = 0; let b: u32 = 0; let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(0); got == exp }
pub fn s104_0(a: u32, b: u32) -> bool { if !(a == 0 && b == 0) { return true; } let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(0); got == exp }
pub fn c104_1() -> bool { let a: u32 = 0; let b: u32 = 1; let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = None; got == exp }
pub fn s104_1(a: u32, b: u32) -> bool { if !(a == 0 && b == 1) { return true; } let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = None; got == exp }
pub fn c104_2() -> bool { let a: u32 = 0; let b: u32 = 7; let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = None; got == exp }
pub fn s104_2(a: u32, b: u32) -> bool { if !(a == 0 && b == 7) { return true; } let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = None; got == exp }
pub fn c104_3() -> bool { let a: u32 = 0; let b: u32 = u32::MAX; let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = None; got == exp }
pub fn s104_3(a: u32, b: u32) -> bool { if !(a == 0 && b == u32::MAX) { return true; } let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = None; got == exp }
pub fn c104_4() -> bool { let a: u32 = 1; let b: u32 = 0; let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(1); got == exp }
pub fn s104_4(a: u32, b: u32) -> bool { if !(a == 1 && b == 0) { return true; } let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(1); got == exp }
pub fn c104_5() -> bool { let a: u32 = 1; let b: u32 = 1; let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(0); got == exp }
pub fn s104_5(a: u32, b: u32) -> bool { if !(a == 1 && b == 1) { return true; } let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(0); got == exp }
pub fn c104_6() -> bool { let a: u32 = 1; let b: u32 = 7; let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = None; got == exp }
pub fn s104_6(a: u32, b: u32) -> bool { if !(a == 1 && b == 7) { return true; } let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = None; got == exp }
pub fn c104_7() -> bool { let a: u32 = 1; let b: u32 = u32::MAX; let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = None; got == exp }
pub fn s104_7(a: u32, b: u32) -> bool { if !(a == 1 && b == u32::MAX) { return true; } let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = None; got == exp }
pub fn c104_8() -> bool { let a: u32 = 7; let b: u32 = 0; let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(7); got == exp }
pub fn s104_8(a: u32, b: u32) -> bool { if !(a == 7 && b == 0) { return true; } let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(7); got == exp }
pub fn c104_9() -> bool { let a: u32 = 7; let b: u32 = 1; let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(6); got == exp }
pub fn s104_9(a: u32, b: u32) -> bool { if !(a == 7 && b == 1) { return true; } let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(6); got == exp }
pub fn c104_10() -> bool { let a: u32 = 7; let b: u32 = 7; let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(0); got == exp }
pub fn s104_10(a: u32, b: u32) -> bool { if !(a == 7 && b == 7) { return true; } let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(0); got == exp }
pub fn c104_11() -> bool { let a: u32 = 7; let b: u32 = u32::MAX; let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = None; got == exp }
pub fn s104_11(a: u32, b: u32) -> bool { if !(a == 7 && b == u32::MAX) { return true; } let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = None; got == exp }
pub fn c104_12() -> bool { let a: u32 = u32::MAX; let b: u32 = 0; let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(4294967295); got == exp }
pub fn s104_12(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 0) { return true; } let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(4294967295); got == exp }
pub fn c104_13() -> bool { let a: u32 = u32::MAX; let b: u32 = 1; let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(4294967294); got == exp }
pub fn s104_13(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 1) { return true; } let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(4294967294); got == exp }
pub fn c104_14() -> bool { let a: u32 = u32::MAX; let b: u32 = 7; let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(4294967288); got == exp }
pub fn s104_14(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 7) { return true; } let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(4294967288); got == exp }
pub fn c104_15() -> bool { let a: u32 = u32::MAX; let b: u32 = u32::MAX; let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(0); got == exp }
pub fn s104_15(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == u32::MAX) { return true; } let got: Option<u32> = a.checked_sub(b); let exp: Option<u32> = Some(0); got == exp }
pub fn c105_0() -> bool { let a: u32 = 0; let b: u32 = 0; let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(0); got == exp }
pub fn s105_0(a: u32, b: u32) -> bool { if !(a == 0 && b == 0) { return true; } let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(0); got == exp }
pub fn c105_1() -> bool { let a: u32 = 0; let b: u32 = 1; let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(0); got == exp }
pub fn s105_1(a: u32, b: u32) -> bool { if !(a == 0 && b == 1) { return true; } let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(0); got == exp }
pub fn c105_2() -> bool { let a: u32 = 0; let b: u32 = 7; let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(0); got == exp }
pub fn s105_2(a: u32, b: u32) -> bool { if !(a == 0 && b == 7) { return true; } let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(0); got == exp }
pub fn c105_3() -> bool { let a: u32 = 0; let b: u32 = u32::MAX; let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(0); got == exp }
pub fn s105_3(a: u32, b: u32) -> bool { if !(a == 0 && b == u32::MAX) { return true; } let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(0); got == exp }
pub fn c105_4() -> bool { let a: u32 = 1; let b: u32 = 0; let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(0); got == exp }
pub fn s105_4(a: u32, b: u32) -> bool { if !(a == 1 && b == 0) { return true; } let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(0); got == exp }
pub fn c105_5() -> bool { let a: u32 = 1; let b: u32 = 1; let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(1); got == exp }
pub fn s105_5(a: u32, b: u32) -> bool { if !(a == 1 && b == 1) { return true; } let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(1); got == exp }
pub fn c105_6() -> bool { let a: u32 = 1; let b: u32 = 7; let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(7); got == exp }
pub fn s105_6(a: u32, b: u32) -> bool { if !(a == 1 && b == 7) { return true; } let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(7); got == exp }
pub fn c105_7() -> bool { let a: u32 = 1; let b: u32 = u32::MAX; let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(4294967295); got == exp }
pub fn s105_7(a: u32, b: u32) -> bool { if !(a == 1 && b == u32::MAX) { return true; } let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(4294967295); got == exp }
pub fn c105_8() -> bool { let a: u32 = 7; let b: u32 = 0; let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(0); got == exp }
pub fn s105_8(a: u32, b: u32) -> bool { if !(a == 7 && b == 0) { return true; } let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(0); got == exp }
pub fn c105_9() -> bool { let a: u32 = 7; let b: u32 = 1; let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(7); got == exp }
pub fn s105_9(a: u32, b: u32) -> bool { if !(a == 7 && b == 1) { return true; } let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(7); got == exp }
pub fn c105_10() -> bool { let a: u32 = 7; let b: u32 = 7; let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(49); got == exp }
pub fn s105_10(a: u32, b: u32) -> bool { if !(a == 7 && b == 7) { return true; } let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(49); got == exp }
pub fn c105_11() -> bool { let a: u32 = 7; let b: u32 = u32::MAX; let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = None; got == exp }
pub fn s105_11(a: u32, b: u32) -> bool { if !(a == 7 && b == u32::MAX) { return true; } let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = None; got == exp }
pub fn c105_12() -> bool { let a: u32 = u32::MAX; let b: u32 = 0; let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(0); got == exp }
pub fn s105_12(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 0) { return true; } let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(0); got == exp }
pub fn c105_13() -> bool { let a: u32 = u32::MAX; let b: u32 = 1; let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(4294967295); got == exp }
pub fn s105_13(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 1) { return true; } let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = Some(4294967295); got == exp }
pub fn c105_14() -> bool { let a: u32 = u32::MAX; let b: u32 = 7; let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = None; got == exp }
pub fn s105_14(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 7) { return true; } let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = None; got == exp }
pub fn c105_15() -> bool { let a: u32 = u32::MAX; let b: u32 = u32::MAX; let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = None; got == exp }
pub fn s105_15(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == u32::MAX) { return true; } let got: Option<u32> = a.checked_mul(b); let exp: Option<u32> = None; got == exp }
pub fn c106_0() -> bool { let a: u32 = 0; let b: u32 = 0; let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn s106_0(a: u32, b: u32) -> bool { if !(a == 0 && b == 0) { return true; } let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn c106_1() -> bool { let a: u32 = 0; let b: u32 = 1; let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn s106_1(a: u32, b: u32) -> bool { if !(a == 0 && b == 1) { return true; } let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn c106_2() -> bool { let a: u32 = 0; let b: u32 = 7; let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn s106_2(a: u32, b: u32) -> bool { if !(a == 0 && b == 7) { return true; } let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn c106_3() -> bool { let a: u32 = 0; let b: u32 = u32::MAX; let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn s106_3(a: u32, b: u32) -> bool { if !(a == 0 && b == u32::MAX) { return true; } let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn c106_4() -> bool { let a: u32 = 1; let b: u32 = 0; let got: u32 = a.saturating_sub(b); let exp: u32 = 1; got == exp }
pub fn s106_4(a: u32, b: u32) -> bool { if !(a == 1 && b == 0) { return true; } let got: u32 = a.saturating_sub(b); let exp: u32 = 1; got == exp }
pub fn c106_5() -> bool { let a: u32 = 1; let b: u32 = 1; let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn s106_5(a: u32, b: u32) -> bool { if !(a == 1 && b == 1) { return true; } let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn c106_6() -> bool { let a: u32 = 1; let b: u32 = 7; let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn s106_6(a: u32, b: u32) -> bool { if !(a == 1 && b == 7) { return true; } let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn c106_7() -> bool { let a: u32 = 1; let b: u32 = u32::MAX; let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn s106_7(a: u32, b: u32) -> bool { if !(a == 1 && b == u32::MAX) { return true; } let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn c106_8() -> bool { let a: u32 = 7; let b: u32 = 0; let got: u32 = a.saturating_sub(b); let exp: u32 = 7; got == exp }
pub fn s106_8(a: u32, b: u32) -> bool { if !(a == 7 && b == 0) { return true; } let got: u32 = a.saturating_sub(b); let exp: u32 = 7; got == exp }
pub fn c106_9() -> bool { let a: u32 = 7; let b: u32 = 1; let got: u32 = a.saturating_sub(b); let exp: u32 = 6; got == exp }
pub fn s106_9(a: u32, b: u32) -> bool { if !(a == 7 && b == 1) { return true; } let got: u32 = a.saturating_sub(b); let exp: u32 = 6; got == exp }
pub fn c106_10() -> bool { let a: u32 = 7; let b: u32 = 7; let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn s106_10(a: u32, b: u32) -> bool { if !(a == 7 && b == 7) { return true; } let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn c106_11() -> bool { let a: u32 = 7; let b: u32 = u32::MAX; let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn s106_11(a: u32, b: u32) -> bool { if !(a == 7 && b == u32::MAX) { return true; } let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn c106_12() -> bool { let a: u32 = u32::MAX; let b: u32 = 0; let got: u32 = a.saturating_sub(b); let exp: u32 = 4294967295; got == exp }
pub fn s106_12(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 0) { return true; } let got: u32 = a.saturating_sub(b); let exp: u32 = 4294967295; got == exp }
pub fn c106_13() -> bool { let a: u32 = u32::MAX; let b: u32 = 1; let got: u32 = a.saturating_sub(b); let exp: u32 = 4294967294; got == exp }
pub fn s106_13(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 1) { return true; } let got: u32 = a.saturating_sub(b); let exp: u32 = 4294967294; got == exp }
pub fn c106_14() -> bool { let a: u32 = u32::MAX; let b: u32 = 7; let got: u32 = a.saturating_sub(b); let exp: u32 = 4294967288; got == exp }
pub fn s106_14(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 7) { return true; } let got: u32 = a.saturating_sub(b); let exp: u32 = 4294967288; got == exp }
pub fn c106_15() -> bool { let a: u32 = u32::MAX; let b: u32 = u32::MAX; let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn s106_15(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == u32::MAX) { return true; } let got: u32 = a.saturating_sub(b); let exp: u32 = 0; got == exp }
pub fn c107_0() -> bool { let a: u32 = 0; let b: u32 = 0; let got: u32 = a.saturating_add(b); let exp: u32 = 0; got == exp }
pub fn s107_0(a: u32, b: u32) -> bool { if !(a == 0 && b == 0) { return true; } let got: u32 = a.saturating_add(b); let exp: u32 = 0; got == exp }
pub fn c107_1() -> bool { let a: u32 = 0; let b: u32 = 1; let got: u32 = a.saturating_add(b); let exp: u32 = 1; got == exp }
pub fn s107_1(a: u32, b: u32) -> bool { if !(a == 0 && b == 1) { return true; } let got: u32 = a.saturating_add(b); let exp: u32 = 1; got == exp }
pub fn c107_2() -> bool { let a: u32 = 0; let b: u32 = 7; let got: u32 = a.saturating_add(b); let exp: u32 = 7; got == exp }
pub fn s107_2(a: u32, b: u32) -> bool { if !(a == 0 && b == 7) { return true; } let got: u32 = a.saturating_add(b); let exp: u32 = 7; got == exp }
pub fn c107_3() -> bool { let a: u32 = 0; let b: u32 = u32::MAX; let got: u32 = a.saturating_add(b); let exp: u32 = 4294967295; got == exp }
pub fn s107_3(a: u32, b: u32) -> bool { if !(a == 0 && b == u32::MAX) { return true; } let got: u32 = a.saturating_add(b); let exp: u32 = 4294967295; got == exp }
pub fn c107_4() -> bool { let a: u32 = 1; let b: u32 = 0; let got: u32 = a.saturating_add(b); let exp: u32 = 1; got == exp }
pub fn s107_4(a: u32, b: u32) -> bool { if !(a == 1 && b == 0) { return true; } let got: u32 = a.saturating_add(b); let exp: u32 = 1; got == exp }
pub fn c107_5() -> bool { let a: u32 = 1; let b: u32 = 1; let got: u32 = a.saturating_add(b); let exp: u32 = 2; got == exp }
pub fn s107_5(a: u32, b: u32) -> bool { if !(a == 1 && b == 1) { return true; } let got: u32 = a.saturating_add(b); let exp: u32 = 2; got == exp }
pub fn c107_6() -> bool { let a: u32 = 1; let b: u32 = 7; let got: u32 = a.saturating_add(b); let exp: u32 = 8; got == exp }
pub fn s107_6(a: u32, b: u32) -> bool { if !(a == 1 && b == 7) { return true; } let got: u32 = a.saturating_add(b); let exp: u32 = 8; got == exp }
pub fn c107_7() -> bool { let a: u32 = 1; let b: u32 = u32::MAX; let got: u32 = a.saturating_add(b); let exp: u32 = 4294967295; got == exp }
pub fn s107_7(a: u32, b: u32) -> bool { if !(a == 1 && b == u32::MAX) { return true; } let got: u32 = a.saturating_add(b); let exp: u32 = 4294967295; got == exp }
pub fn c107_8() -> bool { let a: u32 = 7; let b: u32 = 0; let got: u32 = a.saturating_add(b); let exp: u32 = 7; got == exp }
pub fn s107_8(a: u32, b: u32) -> bool { if !(a == 7 && b == 0) { return true; } let got: u32 = a.saturating_add(b); let exp: u32 = 7; got == exp }
pub fn c107_9() -> bool { let a: u32 = 7; let b: u32 = 1; let got: u32 = a.saturating_add(b); let exp: u32 = 8; got == exp }
pub fn s107_9(a: u32, b: u32) -> bool { if !(a == 7 && b == 1) { return true; } let got: u32 = a.saturating_add(b); let exp: u32 = 8; got == exp }
pub fn c107_10() -> bool { let a: u32 = 7; let b: u32 = 7; let got: u32 = a.saturating_add(b); let exp: u32 = 14; got == exp }
pub fn s107_10(a: u32, b: u32) -> bool { if !(a == 7 && b == 7) { return true; } let got: u32 = a.saturating_add(b); let exp: u32 = 14; got == exp }
pub fn c107_11() -> bool { let a: u32 = 7; let b: u32 = u32::MAX; let got: u32 = a.saturating_add(b); let exp: u32 = 4294967295; got == exp }
pub fn s107_11(a: u32, b: u32) -> bool { if !(a == 7 && b == u32::MAX) { return true; } let got: u32 = a.saturating_add(b); let exp: u32 = 4294967295; got == exp }
pub fn c107_12() -> bool { let a: u32 = u32::MAX; let b: u32 = 0; let got: u32 = a.saturating_add(b); let exp: u32 = 4294967295; got == exp }
pub fn s107_12(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 0) { return true; } let got: u32 = a.saturating_add(b); let exp: u32 = 4294967295; got == exp }
pub fn c107_13() -> bool { let a: u32 = u32::MAX; let b: u32 = 1; let got: u32 = a.saturating_add(b); let exp: u32 = 4294967295; got == exp }
pub fn s107_13(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 1) { return true; } let got: u32 = a.saturating_add(b); let exp: u32 = 4294967295; got == exp }
pub fn c107_14() -> bool { let a: u32 = u32::MAX; let b: u32 = 7; let got: u32 = a.saturating_add(b); let exp: u32 = 4294967295; got == exp }
pub fn s107_14(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 7) { return true; } let got: u32 = a.saturating_add(b); let exp: u32 = 4294967295; got == exp }
pub fn c107_15() -> bool { let a: u32 = u32::MAX; let b: u32 = u32::MAX; let got: u32 = a.saturating_add(b); let exp: u32 = 4294967295; got == exp }
pub fn s107_15(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == u32::MAX) { return true; } let got: u32 = a.saturating_add(b); let exp: u32 = 4294967295; got == exp }
pub fn c108_0() -> bool { let a: u32 = 0; let b: u32 = 0; let got: u32 = a.max(b); let exp: u32 = 0; got == exp }
pub fn s108_0(a: u32, b: u32) -> bool { if !(a == 0 && b == 0) { return true; } let got: u32 = a.max(b); let exp: u32 = 0; got == exp }
pub fn c108_1() -> bool { let a: u32 = 0; let b: u32 = 1; let got: u32 = a.max(b); let exp: u32 = 1; got == exp }
pub fn s108_1(a: u32, b: u32) -> bool { if !(a == 0 && b == 1) { return true; } let got: u32 = a.max(b); let exp: u32 = 1; got == exp }
pub fn c108_2() -> bool { let a: u32 = 0; let b: u32 = 7; let got: u32 = a.max(b); let exp: u32 = 7; got == exp }
pub fn s108_2(a: u32, b: u32) -> bool { if !(a == 0 && b == 7) { return true; } let got: u32 = a.max(b); let exp: u32 = 7; got == exp }
pub fn c108_3() -> bool { let a: u32 = 0; let b: u32 = u32::MAX; let got: u32 = a.max(b); let exp: u32 = 4294967295; got == exp }
pub fn s108_3(a: u32, b: u32) -> bool { if !(a == 0 && b == u32::MAX) { return true; } let got: u32 = a.max(b); let exp: u32 = 4294967295; got == exp }
pub fn c108_4() -> bool { let a: u32 = 1; let b: u32 = 0; let got: u32 = a.max(b); let exp: u32 = 1; got == exp }
pub fn s108_4(a: u32, b: u32) -> bool { if !(a == 1 && b == 0) { return true; } let got: u32 = a.max(b); let exp: u32 = 1; got == exp }
pub fn c108_5() -> bool { let a: u32 = 1; let b: u32 = 1; let got: u32 = a.max(b); let exp: u32 = 1; got == exp }
pub fn s108_5(a: u32, b: u32) -> bool { if !(a == 1 && b == 1) { return true; } let got: u32 = a.max(b); let exp: u32 = 1; got == exp }
pub fn c108_6() -> bool { let a: u32 = 1; let b: u32 = 7; let got: u32 = a.max(b); let exp: u32 = 7; got == exp }
pub fn s108_6(a: u32, b: u32) -> bool { if !(a == 1 && b == 7) { return true; } let got: u32 = a.max(b); let exp: u32 = 7; got == exp }
pub fn c108_7() -> bool { let a: u32 = 1; let b: u32 = u32::MAX; let got: u32 = a.max(b); let exp: u32 = 4294967295; got == exp }
pub fn s108_7(a: u32, b: u32) -> bool { if !(a == 1 && b == u32::MAX) { return true; } let got: u32 = a.max(b); let exp: u32 = 4294967295; got == exp }
pub fn c108_8() -> bool { let a: u32 = 7; let b: u32 = 0; let got: u32 = a.max(b); let exp: u32 = 7; got == exp }
pub fn s108_8(a: u32, b: u32) -> bool { if !(a == 7 && b == 0) { return true; } let got: u32 = a.max(b); let exp: u32 = 7; got == exp }
pub fn c108_9() -> bool { let a: u32 = 7; let b: u32 = 1; let got: u32 = a.max(b); let exp: u32 = 7; got == exp }
pub fn s108_9(a: u32, b: u32) -> bool { if !(a == 7 && b == 1) { return true; } let got: u32 = a.max(b); let exp: u32 = 7; got == exp }
pub fn c108_10() -> bool { let a: u32 = 7; let b: u32 = 7; let got: u32 = a.max(b); let exp: u32 = 7; got == exp }
pub fn s108_10(a: u32, b: u32) -> bool { if !(a == 7 && b == 7) { return true; } let got: u32 = a.max(b); let exp: u32 = 7; got == exp }
pub fn c108_11() -> bool { let a: u32 = 7; let b: u32 = u32::MAX; let got: u32 = a.max(b); let exp: u32 = 4294967295; got == exp }
pub fn s108_11(a: u32, b: u32) -> bool { if !(a == 7 && b == u32::MAX) { return true; } let got: u32 = a.max(b); let exp: u32 = 4294967295; got == exp }
pub fn c108_12() -> bool { let a: u32 = u32::MAX; let b: u32 = 0; let got: u32 = a.max(b); let exp: u32 = 4294967295; got == exp }
pub fn s108_12(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 0) { return true; } let got: u32 = a.max(b); let exp: u32 = 4294967295; got == exp }
pub fn c108_13() -> bool { let a: u32 = u32::MAX; let b: u32 = 1; let got: u32 = a.max(b); let exp: u32 = 4294967295; got == exp }
pub fn s108_13(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 1) { return true; } let got: u32 = a.max(b); let exp: u32 = 4294967295; got == exp }
pub fn c108_14() -> bool { let a: u32 = u32::MAX; let b: u32 = 7; let got: u32 = a.max(b); let exp: u32 = 4294967295; got == exp }
pub fn s108_14(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 7) { return true; } let got: u32 = a.max(b); let exp: u32 = 4294967295; got == exp }
pub fn c108_15() -> bool { let a: u32 = u32::MAX; let b: u32 = u32::MAX; let got: u32 = a.max(b); let exp: u32 = 4294967295; got == exp }
pub fn s108_15(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == u32::MAX) { return true; } let got: u32 = a.max(b); let exp: u32 = 4294967295; got == exp }
pub fn c109_0() -> bool { let a: u32 = 0; let b: u32 = 0; let got: u32 = a.min(b); let exp: u32 = 0; got == exp }
pub fn s109_0(a: u32, b: u32) -> bool { if !(a == 0 && b == 0) { return true; } let got: u32 = a.min(b); let exp: u32 = 0; got == exp }
pub fn c109_1() -> bool { let a: u32 = 0; let b: u32 = 1; let got: u32 = a.min(b); let exp: u32 = 0; got == exp }
pub fn s109_1(a: u32, b: u32) -> bool { if !(a == 0 && b == 1) { return true; } let got: u32 = a.min(b); let exp: u32 = 0; got == exp }
pub fn c109_2() -> bool { let a: u32 = 0; let b: u32 = 7; let got: u32 = a.min(b); let exp: u32 = 0; got == exp }
pub fn s109_2(a: u32, b: u32) -> bool { if !(a == 0 && b == 7) { return true; } let got: u32 = a.min(b); let exp: u32 = 0; got == exp }
pub fn c109_3() -> bool { let a: u32 = 0; let b: u32 = u32::MAX; let got: u32 = a.min(b); let exp: u32 = 0; got == exp }
pub fn s109_3(a: u32, b: u32) -> bool { if !(a == 0 && b == u32::MAX) { return true; } let got: u32 = a.min(b); let exp: u32 = 0; got == exp }
pub fn c109_4() -> bool { let a: u32 = 1; let b: u32 = 0; let got: u32 = a.min(b); let exp: u32 = 0; got == exp }
pub fn s109_4(a: u32, b: u32) -> bool { if !(a == 1 && b == 0) { return true; } let got: u32 = a.min(b); let exp: u32 = 0; got == exp }
pub fn c109_5() -> bool { let a: u32 = 1; let b: u32 = 1; let got: u32 = a.min(b); let exp: u32 = 1; got == exp }
pub fn s109_5(a: u32, b: u32) -> bool { if !(a == 1 && b == 1) { return true; } let got: u32 = a.min(b); let exp: u32 = 1; got == exp }
pub fn c109_6() -> bool { let a: u32 = 1; let b: u32 = 7; let got: u32 = a.min(b); let exp: u32 = 1; got == exp }
pub fn s109_6(a: u32, b: u32) -> bool { if !(a == 1 && b == 7) { return true; } let got: u32 = a.min(b); let exp: u32 = 1; got == exp }
pub fn c109_7() -> bool { let a: u32 = 1; let b: u32 = u32::MAX; let got: u32 = a.min(b); let exp: u32 = 1; got == exp }
pub fn s109_7(a: u32, b: u32) -> bool { if !(a == 1 && b == u32::MAX) { return true; } let got: u32 = a.min(b); let exp: u32 = 1; got == exp }
pub fn c109_8() -> bool { let a: u32 = 7; let b: u32 = 0; let got: u32 = a.min(b); let exp: u32 = 0; got == exp }
pub fn s109_8(a: u32, b: u32) -> bool { if !(a == 7 && b == 0) { return true; } let got: u32 = a.min(b); let exp: u32 = 0; got == exp }
pub fn c109_9() -> bool { let a: u32 = 7; let b: u32 = 1; let got: u32 = a.min(b); let exp: u32 = 1; got == exp }
pub fn s109_9(a: u32, b: u32) -> bool { if !(a == 7 && b == 1) { return true; } let got: u32 = a.min(b); let exp: u32 = 1; got == exp }
pub fn c109_10() -> bool { let a: u32 = 7; let b: u32 = 7; let got: u32 = a.min(b); let exp: u32 = 7; got == exp }
pub fn s109_10(a: u32, b: u32) -> bool { if !(a == 7 && b == 7) { return true; } let got: u32 = a.min(b); let exp: u32 = 7; got == exp }
pub fn c109_11() -> bool { let a: u32 = 7; let b: u32 = u32::MAX; let got: u32 = a.min(b); let exp: u32 = 7; got == exp }
pub fn s109_11(a: u32, b: u32) -> bool { if !(a == 7 && b == u32::MAX) { return true; } let got: u32 = a.min(b); let exp: u32 = 7; got == exp }
pub fn c109_12() -> bool { let a: u32 = u32::MAX; let b: u32 = 0; let got: u32 = a.min(b); let exp: u32 = 0; got == exp }
pub fn s109_12(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 0) { return true; } let got: u32 = a.min(b); let exp: u32 = 0; got == exp }
pub fn c109_13() -> bool { let a: u32 = u32::MAX; let b: u32 = 1; let got: u32 = a.min(b); let exp: u32 = 1; got == exp }
pub fn s109_13(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 1) { return true; } let got: u32 = a.min(b); let exp: u32 = 1; got == exp }
pub fn c109_14() -> bool { let a: u32 = u32::MAX; let b: u32 = 7; let got: u32 = a.min(b); let exp: u32 = 7; got == exp }
pub fn s109_14(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 7) { return true; } let got: u32 = a.min(b); let exp: u32 = 7; got == exp }
pub fn c109_15() -> bool { let a: u32 = u32::MAX; let b: u32 = u32::MAX; let got: u32 = a.min(b); let exp: u32 = 4294967295; got == exp }
pub fn s109_15(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == u32::MAX) { return true; } let got: u32 = a.min(b); let exp: u32 = 4294967295; got == exp }
pub fn c110_0() -> bool { let a: u32 = 0; let b: u32 = 0; let got: u32 = a.abs_diff(b); let exp: u32 = 0; got == exp }
pub fn s110_0(a: u32, b: u32) -> bool { if !(a == 0 && b == 0) { return true; } let got: u32 = a.abs_diff(b); let exp: u32 = 0; got == exp }
pub fn c110_1() -> bool { let a: u32 = 0; let b: u32 = 1; let got: u32 = a.abs_diff(b); let exp: u32 = 1; got == exp }
pub fn s110_1(a: u32, b: u32) -> bool { if !(a == 0 && b == 1) { return true; } let got: u32 = a.abs_diff(b); let exp: u32 = 1; got == exp }
pub fn c110_2() -> bool { let a: u32 = 0; let b: u32 = 7; let got: u32 = a.abs_diff(b); let exp: u32 = 7; got == exp }
pub fn s110_2(a: u32, b: u32) -> bool { if !(a == 0 && b == 7) { return true; } let got: u32 = a.abs_diff(b); let exp: u32 = 7; got == exp }
pub fn c110_3() -> bool { let a: u32 = 0; let b: u32 = u32::MAX; let got: u32 = a.abs_diff(b); let exp: u32 = 4294967295; got == exp }
pub fn s110_3(a: u32, b: u32) -> bool { if !(a == 0 && b == u32::MAX) { return true; } let got: u32 = a.abs_diff(b); let exp: u32 = 4294967295; got == exp }
pub fn c110_4() -> bool { let a: u32 = 1; let b: u32 = 0; let got: u32 = a.abs_diff(b); let exp: u32 = 1; got == exp }
pub fn s110_4(a: u32, b: u32) -> bool { if !(a == 1 && b == 0) { return true; } let got: u32 = a.abs_diff(b); let exp: u32 = 1; got == exp }
pub fn c110_5() -> bool { let a: u32 = 1; let b: u32 = 1; let got: u32 = a.abs_diff(b); let exp: u32 = 0; got == exp }
pub fn s110_5(a: u32, b: u32) -> bool { if !(a == 1 && b == 1) { return true; } let got: u32 = a.abs_diff(b); let exp: u32 = 0; got == exp }
pub fn c110_6() -> bool { let a: u32 = 1; let b: u32 = 7; let got: u32 = a.abs_diff(b); let exp: u32 = 6; got == exp }
pub fn s110_6(a: u32, b: u32) -> bool { if !(a == 1 && b == 7) { return true; } let got: u32 = a.abs_diff(b); let exp: u32 = 6; got == exp }
pub fn c110_7() -> bool { let a: u32 = 1; let b: u32 = u32::MAX; let got: u32 = a.abs_diff(b); let exp: u32 = 4294967294; got == exp }
pub fn s110_7(a: u32, b: u32) -> bool { if !(a == 1 && b == u32::MAX) { return true; } let got: u32 = a.abs_diff(b); let exp: u32 = 4294967294; got == exp }
pub fn c110_8() -> bool { let a: u32 = 7; let b: u32 = 0; let got: u32 = a.abs_diff(b); let exp: u32 = 7; got == exp }
pub fn s110_8(a: u32, b: u32) -> bool { if !(a == 7 && b == 0) { return true; } let got: u32 = a.abs_diff(b); let exp: u32 = 7; got == exp }
pub fn c110_9() -> bool { let a: u32 = 7; let b: u32 = 1; let got: u32 = a.abs_diff(b); let exp: u32 = 6; got == exp }
pub fn s110_9(a: u32, b: u32) -> bool { if !(a == 7 && b == 1) { return true; } let got: u32 = a.abs_diff(b); let exp: u32 = 6; got == exp }
pub fn c110_10() -> bool { let a: u32 = 7; let b: u32 = 7; let got: u32 = a.abs_diff(b); let exp: u32 = 0; got == exp }
pub fn s110_10(a: u32, b: u32) -> bool { if !(a == 7 && b == 7) { return true; } let got: u32 = a.abs_diff(b); let exp: u32 = 0; got == exp }
pub fn c110_11() -> bool { let a: u32 = 7; let b: u32 = u32::MAX; let got: u32 = a.abs_diff(b); let exp: u32 = 4294967288; got == exp }
pub fn s110_11(a: u32, b: u32) -> bool { if !(a == 7 && b == u32::MAX) { return true; } let got: u32 = a.abs_diff(b); let exp: u32 = 4294967288; got == exp }
pub fn c110_12() -> bool { let a: u32 = u32::MAX; let b: u32 = 0; let got: u32 = a.abs_diff(b); let exp: u32 = 4294967295; got == exp }
pub fn s110_12(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 0) { return true; } let got: u32 = a.abs_diff(b); let exp: u32 = 4294967295; got == exp }
pub fn c110_13() -> bool { let a: u32 = u32::MAX; let b: u32 = 1; let got: u32 = a.abs_diff(b); let exp: u32 = 4294967294; got == exp }
pub fn s110_13(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 1) { return true; } let got: u32 = a.abs_diff(b); let exp: u32 = 4294967294; got == exp }
pub fn c110_14() -> bool { let a: u32 = u32::MAX; let b: u32 = 7; let got: u32 = a.abs_diff(b); let exp: u32 = 4294967288; got == exp }
pub fn s110_14(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == 7) { return true; } let got: u32 = a.abs_diff(b); let exp: u32 = 4294967288; got == exp }
pub fn c110_15() -> bool { let a: u32 = u32::MAX; let b: u32 = u32::MAX; let got: u32 = a.abs_diff(b); let exp: u32 = 0; got == exp }
pub fn s110_15(a: u32, b: u32) -> bool { if !(a == u32::MAX && b == u32::MAX) { return true; } let got: u32 = a.abs_diff(b); let exp: u32 = 0; got == exp }
pub fn c111_0() -> bool { let a: i64 = 0; let got: Option<i64> = a.checked_neg(); let exp: Option<i64> = Some(0); got == exp }
pub fn s111_0(a: i64) -> bool { if !(a == 0) { return true; } let got: Option<i64> = a.checked_neg(); let exp: Option<i64> = Some(0); got == exp }
pub fn c111_1() -> bool { let a: i64 = 1; let got: Option<i64> = a.checked_neg(); let exp: Option<i64> = Some(-1); got == exp }
pub fn s111_1(a: i64) -> bool { if !(a == 1) { return true; } let got: Option<i64> = a.checked_neg(); let exp: Option<i64> = Some(-1); got == exp }
pub fn c111_2() -> bool { let a: i64 = -1; let got: Option<i64> = a.checked_neg(); let exp: Option<i64> = Some(1); got == exp }
pub fn s111_2(a: i64) -> bool { if !(a == -1) { return true; } let got: Option<i64> = a.checked_neg(); let exp: Option<i64> = Some(1); got == exp }
pub fn c111_3() -> bool { let a: i64 = 41; let got: Option<i64> = a.checked_neg(); let exp: Option<i64> = Some(-41); got == exp }
pub fn s111_3(a: i64) -> bool { if !(a == 41) { return true; } let got: Option<i64> = a.checked_neg(); let exp: Option<i64> = Some(-41); got == exp }
pub fn c111_4() -> bool { let a: i64 = i64::MAX; let got: Option<i64> = a.checked_neg(); let exp: Option<i64> = Some(-9223372036854775807); got == exp }
pub fn s111_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: Option<i64> = a.checked_neg(); let exp: Option<i64> = Some(-9223372036854775807); got == exp }
pub fn c111_5() -> bool { let a: i64 = i64::MIN; let got: Option<i64> = a.checked_neg(); let exp: Option<i64> = None; got == exp }
pub fn s111_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: Option<i64> = a.checked_neg(); let exp: Option<i64> = None; got == exp }
pub fn c111_6() -> bool { let a: i64 = i64::MAX - 1; let got: Option<i64> = a.checked_neg(); let exp: Option<i64> = Some(-9223372036854775806); got == exp }
pub fn s111_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: Option<i64> = a.checked_neg(); let exp: Option<i64> = Some(-9223372036854775806); got == exp }
pub fn c112_0() -> bool { let a: i64 = 0; let got: Option<i64> = a.checked_abs(); let exp: Option<i64> = Some(0); got == exp }
pub fn s112_0(a: i64) -> bool { if !(a == 0) { return true; } let got: Option<i64> = a.checked_abs(); let exp: Option<i64> = Some(0); got == exp }
pub fn c112_1() -> bool { let a: i64 = 1; let got: Option<i64> = a.checked_abs(); let exp: Option<i64> = Some(1); got == exp }
pub fn s112_1(a: i64) -> bool { if !(a == 1) { return true; } let got: Option<i64> = a.checked_abs(); let exp: Option<i64> = Some(1); got == exp }
pub fn c112_2() -> bool { let a: i64 = -1; let got: Option<i64> = a.checked_abs(); let exp: Option<i64> = Some(1); got == exp }
pub fn s112_2(a: i64) -> bool { if !(a == -1) { return true; } let got: Option<i64> = a.checked_abs(); let exp: Option<i64> = Some(1); got == exp }
pub fn c112_3() -> bool { let a: i64 = 41; let got: Option<i64> = a.checked_abs(); let exp: Option<i64> = Some(41); got == exp }
pub fn s112_3(a: i64) -> bool { if !(a == 41) { return true; } let got: Option<i64> = a.checked_abs(); let exp: Option<i64> = Some(41); got == exp }
pub fn c112_4() -> bool { let a: i64 = i64::MAX; let got: Option<i64> = a.checked_abs(); let exp: Option<i64> = Some(9223372036854775807); got == exp }
pub fn s112_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: Option<i64> = a.checked_abs(); let exp: Option<i64> = Some(9223372036854775807); got == exp }
pub fn c112_5() -> bool { let a: i64 = i64::MIN; let got: Option<i64> = a.checked_abs(); let exp: Option<i64> = None; got == exp }
pub fn s112_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: Option<i64> = a.checked_abs(); let exp: Option<i64> = None; got == exp }
pub fn c112_6() -> bool { let a: i64 = i64::MAX - 1; let got: Option<i64> = a.checked_abs(); let exp: Option<i64> = Some(9223372036854775806); got == exp }
pub fn s112_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: Option<i64> = a.checked_abs(); let exp: Option<i64> = Some(9223372036854775806); got == exp }
pub fn c113_0() -> bool { let a: i64 = 0; let got: u64 = a.unsigned_abs(); let exp: u64 = 0; got == exp }
pub fn s113_0(a: i64) -> bool { if !(a == 0) { return true; } let got: u64 = a.unsigned_abs(); let exp: u64 = 0; got == exp }
pub fn c113_1() -> bool { let a: i64 = 1; let got: u64 = a.unsigned_abs(); let exp: u64 = 1; got == exp }
pub fn s113_1(a: i64) -> bool { if !(a == 1) { return true; } let got: u64 = a.unsigned_abs(); let exp: u64 = 1; got == exp }
pub fn c113_2() -> bool { let a: i64 = -1; let got: u64 = a.unsigned_abs(); let exp: u64 = 1; got == exp }
pub fn s113_2(a: i64) -> bool { if !(a == -1) { return true; } let got: u64 = a.unsigned_abs(); let exp: u64 = 1; got == exp }
pub fn c113_3() -> bool { let a: i64 = 41; let got: u64 = a.unsigned_abs(); let exp: u64 = 41; got == exp }
pub fn s113_3(a: i64) -> bool { if !(a == 41) { return true; } let got: u64 = a.unsigned_abs(); let exp: u64 = 41; got == exp }
pub fn c113_4() -> bool { let a: i64 = i64::MAX; let got: u64 = a.unsigned_abs(); let exp: u64 = 9223372036854775807; got == exp }
pub fn s113_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: u64 = a.unsigned_abs(); let exp: u64 = 9223372036854775807; got == exp }
pub fn c113_5() -> bool { let a: i64 = i64::MIN; let got: u64 = a.unsigned_abs(); let exp: u64 = 9223372036854775808; got == exp }
pub fn s113_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: u64 = a.unsigned_abs(); let exp: u64 = 9223372036854775808; got == exp }
pub fn c113_6() -> bool { let a: i64 = i64::MAX - 1; let got: u64 = a.unsigned_abs(); let exp: u64 = 9223372036854775806; got == exp }
pub fn s113_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: u64 = a.unsigned_abs(); let exp: u64 = 9223372036854775806; got == exp }
pub fn c114_0() -> bool { let a: i64 = 0; let got: u64 = a as u64; let exp: u64 = 0; got == exp }
pub fn s114_0(a: i64) -> bool { if !(a == 0) { return true; } let got: u64 = a as u64; let exp: u64 = 0; got == exp }
pub fn c114_1() -> bool { let a: i64 = 1; let got: u64 = a as u64; let exp: u64 = 1; got == exp }
pub fn s114_1(a: i64) -> bool { if !(a == 1) { return true; } let got: u64 = a as u64; let exp: u64 = 1; got == exp }
pub fn c114_2() -> bool { let a: i64 = -1; let got: u64 = a as u64; let exp: u64 = 18446744073709551615; got == exp }
pub fn s114_2(a: i64) -> bool { if !(a == -1) { return true; } let got: u64 = a as u64; let exp: u64 = 18446744073709551615; got == exp }
pub fn c114_3() -> bool { let a: i64 = 41; let got: u64 = a as u64; let exp: u64 = 41; got == exp }
pub fn s114_3(a: i64) -> bool { if !(a == 41) { return true; } let got: u64 = a as u64; let exp: u64 = 41; got == exp }
pub fn c114_4() -> bool { let a: i64 = i64::MAX; let got: u64 = a as u64; let exp: u64 = 9223372036854775807; got == exp }
pub fn s114_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: u64 = a as u64; let exp: u64 = 9223372036854775807; got == exp }
pub fn c114_5() -> bool { let a: i64 = i64::MIN; let got: u64 = a as u64; let exp: u64 = 9223372036854775808; got == exp }
pub fn s114_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: u64 = a as u64; let exp: u64 = 9223372036854775808; got == exp }
pub fn c114_6() -> bool { let a: i64 = i64::MAX - 1; let got: u64 = a as u64; let exp: u64 = 9223372036854775806; got == exp }
pub fn s114_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: u64 = a as u64; let exp: u64 = 9223372036854775806; got == exp }
pub fn c115_0() -> bool { let a: i64 = 0; let got: u64 = (a as u64) >> 1; let exp: u64 = 0; got == exp }
pub fn s115_0(a: i64) -> bool { if !(a == 0) { return true; } let got: u64 = (a as u64) >> 1; let exp: u64 = 0; got == exp }
pub fn c115_1() -> bool { let a: i64 = 1; let got: u64 = (a as u64) >> 1; let exp: u64 = 0; got == exp }
pub fn s115_1(a: i64) -> bool { if !(a == 1) { return true; } let got: u64 = (a as u64) >> 1; let exp: u64 = 0; got == exp }
pub fn c115_2() -> bool { let a: i64 = -1; let got: u64 = (a as u64) >> 1; let exp: u64 = 9223372036854775807; got == exp }
pub fn s115_2(a: i64) -> bool { if !(a == -1) { return true; } let got: u64 = (a as u64) >> 1; let exp: u64 = 9223372036854775807; got == exp }
pub fn c115_3() -> bool { let a: i64 = 41; let got: u64 = (a as u64) >> 1; let exp: u64 = 20; got == exp }
pub fn s115_3(a: i64) -> bool { if !(a == 41) { return true; } let got: u64 = (a as u64) >> 1; let exp: u64 = 20; got == exp }
pub fn c115_4() -> bool { let a: i64 = i64::MAX; let got: u64 = (a as u64) >> 1; let exp: u64 = 4611686018427387903; got == exp }
pub fn s115_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: u64 = (a as u64) >> 1; let exp: u64 = 4611686018427387903; got == exp }
pub fn c115_5() -> bool { let a: i64 = i64::MIN; let got: u64 = (a as u64) >> 1; let exp: u64 = 4611686018427387904; got == exp }
pub fn s115_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: u64 = (a as u64) >> 1; let exp: u64 = 4611686018427387904; got == exp }
pub fn c115_6() -> bool { let a: i64 = i64::MAX - 1; let got: u64 = (a as u64) >> 1; let exp: u64 = 4611686018427387903; got == exp }
pub fn s115_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: u64 = (a as u64) >> 1; let exp: u64 = 4611686018427387903; got == exp }
pub fn c116_0() -> bool { let a: i64 = 0; let got: u32 = a as u32; let exp: u32 = 0; got == exp }
pub fn s116_0(a: i64) -> bool { if !(a == 0) { return true; } let got: u32 = a as u32; let exp: u32 = 0; got == exp }
pub fn c116_1() -> bool { let a: i64 = 1; let got: u32 = a as u32; let exp: u32 = 1; got == exp }
pub fn s116_1(a: i64) -> bool { if !(a == 1) { return true; } let got: u32 = a as u32; let exp: u32 = 1; got == exp }
pub fn c116_2() -> bool { let a: i64 = -1; let got: u32 = a as u32; let exp: u32 = 4294967295; got == exp }
pub fn s116_2(a: i64) -> bool { if !(a == -1) { return true; } let got: u32 = a as u32; let exp: u32 = 4294967295; got == exp }
pub fn c116_3() -> bool { let a: i64 = 41; let got: u32 = a as u32; let exp: u32 = 41; got == exp }
pub fn s116_3(a: i64) -> bool { if !(a == 41) { return true; } let got: u32 = a as u32; let exp: u32 = 41; got == exp }
pub fn c116_4() -> bool { let a: i64 = i64::MAX; let got: u32 = a as u32; let exp: u32 = 4294967295; got == exp }
pub fn s116_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: u32 = a as u32; let exp: u32 = 4294967295; got == exp }
pub fn c116_5() -> bool { let a: i64 = i64::MIN; let got: u32 = a as u32; let exp: u32 = 0; got == exp }
pub fn s116_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: u32 = a as u32; let exp: u32 = 0; got == exp }
pub fn c116_6() -> bool { let a: i64 = i64::MAX - 1; let got: u32 = a as u32; let exp: u32 = 4294967294; got == exp }
pub fn s116_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: u32 = a as u32; let exp: u32 = 4294967294; got == exp }
pub fn c117_0() -> bool { let a: i64 = 0; let got: u32 = a as u8 as u32; let exp: u32 = 0; got == exp }
pub fn s117_0(a: i64) -> bool { if !(a == 0) { return true; } let got: u32 = a as u8 as u32; let exp: u32 = 0; got == exp }
pub fn c117_1() -> bool { let a: i64 = 1; let got: u32 = a as u8 as u32; let exp: u32 = 1; got == exp }
pub fn s117_1(a: i64) -> bool { if !(a == 1) { return true; } let got: u32 = a as u8 as u32; let exp: u32 = 1; got == exp }
pub fn c117_2() -> bool { let a: i64 = -1; let got: u32 = a as u8 as u32; let exp: u32 = 255; got == exp }
pub fn s117_2(a: i64) -> bool { if !(a == -1) { return true; } let got: u32 = a as u8 as u32; let exp: u32 = 255; got == exp }
pub fn c117_3() -> bool { let a: i64 = 41; let got: u32 = a as u8 as u32; let exp: u32 = 41; got == exp }
pub fn s117_3(a: i64) -> bool { if !(a == 41) { return true; } let got: u32 = a as u8 as u32; let exp: u32 = 41; got == exp }
pub fn c117_4() -> bool { let a: i64 = i64::MAX; let got: u32 = a as u8 as u32; let exp: u32 = 255; got == exp }
pub fn s117_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: u32 = a as u8 as u32; let exp: u32 = 255; got == exp }
pub fn c117_5() -> bool { let a: i64 = i64::MIN; let got: u32 = a as u8 as u32; let exp: u32 = 0; got == exp }
pub fn s117_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: u32 = a as u8 as u32; let exp: u32 = 0; got == exp }
pub fn c117_6() -> bool { let a: i64 = i64::MAX - 1; let got: u32 = a as u8 as u32; let exp: u32 = 254; got == exp }
pub fn s117_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: u32 = a as u8 as u32; let exp: u32 = 254; got == exp }
pub fn c118_0() -> bool { let a: i64 = 0; let got: u32 = a as i32 as u32; let exp: u32 = 0; got == exp }
pub fn s118_0(a: i64) -> bool { if !(a == 0) { return true; } let got: u32 = a as i32 as u32; let exp: u32 = 0; got == exp }
pub fn c118_1() -> bool { let a: i64 = 1; let got: u32 = a as i32 as u32; let exp: u32 = 1; got == exp }
pub fn s118_1(a: i64) -> bool { if !(a == 1) { return true; } let got: u32 = a as i32 as u32; let exp: u32 = 1; got == exp }
pub fn c118_2() -> bool { let a: i64 = -1; let got: u32 = a as i32 as u32; let exp: u32 = 4294967295; got == exp }
pub fn s118_2(a: i64) -> bool { if !(a == -1) { return true; } let got: u32 = a as i32 as u32; let exp: u32 = 4294967295; got == exp }
pub fn c118_3() -> bool { let a: i64 = 41; let got: u32 = a as i32 as u32; let exp: u32 = 41; got == exp }
pub fn s118_3(a: i64) -> bool { if !(a == 41) { return true; } let got: u32 = a as i32 as u32; let exp: u32 = 41; got == exp }
pub fn c118_4() -> bool { let a: i64 = i64::MAX; let got: u32 = a as i32 as u32; let exp: u32 = 4294967295; got == exp }
pub fn s118_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: u32 = a as i32 as u32; let exp: u32 = 4294967295; got == exp }
pub fn c118_5() -> bool { let a: i64 = i64::MIN; let got: u32 = a as i32 as u32; let exp: u32 = 0; got == exp }
pub fn s118_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: u32 = a as i32 as u32; let exp: u32 = 0; got == exp }
pub fn c118_6() -> bool { let a: i64 = i64::MAX - 1; let got: u32 = a as i32 as u32; let exp: u32 = 4294967294; got == exp }
pub fn s118_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: u32 = a as i32 as u32; let exp: u32 = 4294967294; got == exp }
pub fn c119_0() -> bool { let a: i64 = 0; let got: i64 = a.signum(); let exp: i64 = 0; got == exp }
pub fn s119_0(a: i64) -> bool { if !(a == 0) { return true; } let got: i64 = a.signum(); let exp: i64 = 0; got == exp }
pub fn c119_1() -> bool { let a: i64 = 1; let got: i64 = a.signum(); let exp: i64 = 1; got == exp }
pub fn s119_1(a: i64) -> bool { if !(a == 1) { return true; } let got: i64 = a.signum(); let exp: i64 = 1; got == exp }
pub fn c119_2() -> bool { let a: i64 = -1; let got: i64 = a.signum(); let exp: i64 = -1; got == exp }
pub fn s119_2(a: i64) -> bool { if !(a == -1) { return true; } let got: i64 = a.signum(); let exp: i64 = -1; got == exp }
pub fn c119_3() -> bool { let a: i64 = 41; let got: i64 = a.signum(); let exp: i64 = 1; got == exp }
pub fn s119_3(a: i64) -> bool { if !(a == 41) { return true; } let got: i64 = a.signum(); let exp: i64 = 1; got == exp }
pub fn c119_4() -> bool { let a: i64 = i64::MAX; let got: i64 = a.signum(); let exp: i64 = 1; got == exp }
pub fn s119_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: i64 = a.signum(); let exp: i64 = 1; got == exp }
pub fn c119_5() -> bool { let a: i64 = i64::MIN; let got: i64 = a.signum(); let exp: i64 = -1; got == exp }
pub fn s119_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: i64 = a.signum(); let exp: i64 = -1; got == exp }
pub fn c119_6() -> bool { let a: i64 = i64::MAX - 1; let got: i64 = a.signum(); let exp: i64 = 1; got == exp }
pub fn s119_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: i64 = a.signum(); let exp: i64 = 1; got == exp }
pub fn c120_0() -> bool { let a: i64 = 0; let got: i64 = a / 2; let exp: i64 = 0; got == exp }
pub fn s120_0(a: i64) -> bool { if !(a == 0) { return true; } let got: i64 = a / 2; let exp: i64 = 0; got == exp }
pub fn c120_1() -> bool { let a: i64 = 1; let got: i64 = a / 2; let exp: i64 = 0; got == exp }
pub fn s120_1(a: i64) -> bool { if !(a == 1) { return true; } let got: i64 = a / 2; let exp: i64 = 0; got == exp }
pub fn c120_2() -> bool { let a: i64 = -1; let got: i64 = a / 2; let exp: i64 = 0; got == exp }
pub fn s120_2(a: i64) -> bool { if !(a == -1) { return true; } let got: i64 = a / 2; let exp: i64 = 0; got == exp }
pub fn c120_3() -> bool { let a: i64 = 41; let got: i64 = a / 2; let exp: i64 = 20; got == exp }
pub fn s120_3(a: i64) -> bool { if !(a == 41) { return true; } let got: i64 = a / 2; let exp: i64 = 20; got == exp }
pub fn c120_4() -> bool { let a: i64 = i64::MAX; let got: i64 = a / 2; let exp: i64 = 4611686018427387903; got == exp }
pub fn s120_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: i64 = a / 2; let exp: i64 = 4611686018427387903; got == exp }
pub fn c120_5() -> bool { let a: i64 = i64::MIN; let got: i64 = a / 2; let exp: i64 = -4611686018427387904; got == exp }
pub fn s120_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: i64 = a / 2; let exp: i64 = -4611686018427387904; got == exp }
pub fn c120_6() -> bool { let a: i64 = i64::MAX - 1; let got: i64 = a / 2; let exp: i64 = 4611686018427387903; got == exp }
pub fn s120_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: i64 = a / 2; let exp: i64 = 4611686018427387903; got == exp }
pub fn c121_0() -> bool { let a: i64 = 0; let got: i64 = a % 3; let exp: i64 = 0; got == exp }
pub fn s121_0(a: i64) -> bool { if !(a == 0) { return true; } let got: i64 = a % 3; let exp: i64 = 0; got == exp }
pub fn c121_1() -> bool { let a: i64 = 1; let got: i64 = a % 3; let exp: i64 = 1; got == exp }
pub fn s121_1(a: i64) -> bool { if !(a == 1) { return true; } let got: i64 = a % 3; let exp: i64 = 1; got == exp }
pub fn c121_2() -> bool { let a: i64 = -1; let got: i64 = a % 3; let exp: i64 = -1; got == exp }
pub fn s121_2(a: i64) -> bool { if !(a == -1) { return true; } let got: i64 = a % 3; let exp: i64 = -1; got == exp }
pub fn c121_3() -> bool { let a: i64 = 41; let got: i64 = a % 3; let exp: i64 = 2; got == exp }
pub fn s121_3(a: i64) -> bool { if !(a == 41) { return true; } let got: i64 = a % 3; let exp: i64 = 2; got == exp }
pub fn c121_4() -> bool { let a: i64 = i64::MAX; let got: i64 = a % 3; let exp: i64 = 1; got == exp }
pub fn s121_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: i64 = a % 3; let exp: i64 = 1; got == exp }
pub fn c121_5() -> bool { let a: i64 = i64::MIN; let got: i64 = a % 3; let exp: i64 = -2; got == exp }
pub fn s121_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: i64 = a % 3; let exp: i64 = -2; got == exp }
pub fn c121_6() -> bool { let a: i64 = i64::MAX - 1; let got: i64 = a % 3; let exp: i64 = 0; got == exp }
pub fn s121_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: i64 = a % 3; let exp: i64 = 0; got == exp }
pub fn c122_0() -> bool { let a: i64 = 0; let got: i64 = a.wrapping_add(1); let exp: i64 = 1; got == exp }
pub fn s122_0(a: i64) -> bool { if !(a == 0) { return true; } let got: i64 = a.wrapping_add(1); let exp: i64 = 1; got == exp }
pub fn c122_1() -> bool { let a: i64 = 1; let got: i64 = a.wrapping_add(1); let exp: i64 = 2; got == exp }
pub fn s122_1(a: i64) -> bool { if !(a == 1) { return true; } let got: i64 = a.wrapping_add(1); let exp: i64 = 2; got == exp }
pub fn c122_2() -> bool { let a: i64 = -1; let got: i64 = a.wrapping_add(1); let exp: i64 = 0; got == exp }
pub fn s122_2(a: i64) -> bool { if !(a == -1) { return true; } let got: i64 = a.wrapping_add(1); let exp: i64 = 0; got == exp }
pub fn c122_3() -> bool { let a: i64 = 41; let got: i64 = a.wrapping_add(1); let exp: i64 = 42; got == exp }
pub fn s122_3(a: i64) -> bool { if !(a == 41) { return true; } let got: i64 = a.wrapping_add(1); let exp: i64 = 42; got == exp }
pub fn c122_4() -> bool { let a: i64 = i64::MAX; let got: i64 = a.wrapping_add(1); let exp: i64 = i64::MIN; got == exp }
pub fn s122_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: i64 = a.wrapping_add(1); let exp: i64 = i64::MIN; got == exp }
pub fn c122_5() -> bool { let a: i64 = i64::MIN; let got: i64 = a.wrapping_add(1); let exp: i64 = -9223372036854775807; got == exp }
pub fn s122_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: i64 = a.wrapping_add(1); let exp: i64 = -9223372036854775807; got == exp }
pub fn c122_6() -> bool { let a: i64 = i64::MAX - 1; let got: i64 = a.wrapping_add(1); let exp: i64 = 9223372036854775807; got == exp }
pub fn s122_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: i64 = a.wrapping_add(1); let exp: i64 = 9223372036854775807; got == exp }
pub fn c123_0() -> bool { let a: i64 = 0; let got: i64 = a.min(5); let exp: i64 = 0; got == exp }
pub fn s123_0(a: i64) -> bool { if !(a == 0) { return true; } let got: i64 = a.min(5); let exp: i64 = 0; got == exp }
pub fn c123_1() -> bool { let a: i64 = 1; let got: i64 = a.min(5); let exp: i64 = 1; got == exp }
pub fn s123_1(a: i64) -> bool { if !(a == 1) { return true; } let got: i64 = a.min(5); let exp: i64 = 1; got == exp }
pub fn c123_2() -> bool { let a: i64 = -1; let got: i64 = a.min(5); let exp: i64 = -1; got == exp }
pub fn s123_2(a: i64) -> bool { if !(a == -1) { return true; } let got: i64 = a.min(5); let exp: i64 = -1; got == exp }
pub fn c123_3() -> bool { let a: i64 = 41; let got: i64 = a.min(5); let exp: i64 = 5; got == exp }
pub fn s123_3(a: i64) -> bool { if !(a == 41) { return true; } let got: i64 = a.min(5); let exp: i64 = 5; got == exp }
pub fn c123_4() -> bool { let a: i64 = i64::MAX; let got: i64 = a.min(5); let exp: i64 = 5; got == exp }
pub fn s123_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: i64 = a.min(5); let exp: i64 = 5; got == exp }
pub fn c123_5() -> bool { let a: i64 = i64::MIN; let got: i64 = a.min(5); let exp: i64 = i64::MIN; got == exp }
pub fn s123_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: i64 = a.min(5); let exp: i64 = i64::MIN; got == exp }
pub fn c123_6() -> bool { let a: i64 = i64::MAX - 1; let got: i64 = a.min(5); let exp: i64 = 5; got == exp }
pub fn s123_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: i64 = a.min(5); let exp: i64 = 5; got == exp }
pub fn c124_0() -> bool { let a: i64 = 0; let got: i64 = a.clamp(-1, 7); let exp: i64 = 0; got == exp }
pub fn s124_0(a: i64) -> bool { if !(a == 0) { return true; } let got: i64 = a.clamp(-1, 7); let exp: i64 = 0; got == exp }
pub fn c124_1() -> bool { let a: i64 = 1; let got: i64 = a.clamp(-1, 7); let exp: i64 = 1; got == exp }
pub fn s124_1(a: i64) -> bool { if !(a == 1) { return true; } let got: i64 = a.clamp(-1, 7); let exp: i64 = 1; got == exp }
pub fn c124_2() -> bool { let a: i64 = -1; let got: i64 = a.clamp(-1, 7); let exp: i64 = -1; got == exp }
pub fn s124_2(a: i64) -> bool { if !(a == -1) { return true; } let got: i64 = a.clamp(-1, 7); let exp: i64 = -1; got == exp }
pub fn c124_3() -> bool { let a: i64 = 41; let got: i64 = a.clamp(-1, 7); let exp: i64 = 7; got == exp }
pub fn s124_3(a: i64) -> bool { if !(a == 41) { return true; } let got: i64 = a.clamp(-1, 7); let exp: i64 = 7; got == exp }
pub fn c124_4() -> bool { let a: i64 = i64::MAX; let got: i64 = a.clamp(-1, 7); let exp: i64 = 7; got == exp }
pub fn s124_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: i64 = a.clamp(-1, 7); let exp: i64 = 7; got == exp }
pub fn c124_5() -> bool { let a: i64 = i64::MIN; let got: i64 = a.clamp(-1, 7); let exp: i64 = -1; got == exp }
pub fn s124_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: i64 = a.clamp(-1, 7); let exp: i64 = -1; got == exp }
pub fn c124_6() -> bool { let a: i64 = i64::MAX - 1; let got: i64 = a.clamp(-1, 7); let exp: i64 = 7; got == exp }
pub fn s124_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: i64 = a.clamp(-1, 7); let exp: i64 = 7; got == exp }
pub fn c125_0() -> bool { let a: i64 = 0; let got: bool = a.is_negative(); let exp: bool = false; got == exp }
pub fn s125_0(a: i64) -> bool { if !(a == 0) { return true; } let got: bool = a.is_negative(); let exp: bool = false; got == exp }
pub fn c125_1() -> bool { let a: i64 = 1; let got: bool = a.is_negative(); let exp: bool = false; got == exp }
pub fn s125_1(a: i64) -> bool { if !(a == 1) { return true; } let got: bool = a.is_negative(); let exp: bool = false; got == exp }
pub fn c125_2() -> bool { let a: i64 = -1; let got: bool = a.is_negative(); let exp: bool = true; got == exp }
pub fn s125_2(a: i64) -> bool { if !(a == -1) { return true; } let got: bool = a.is_negative(); let exp: bool = true; got == exp }
pub fn c125_3() -> bool { let a: i64 = 41; let got: bool = a.is_negative(); let exp: bool = false; got == exp }
pub fn s125_3(a: i64) -> bool { if !(a == 41) { return true; } let got: bool = a.is_negative(); let exp: bool = false; got == exp }
pub fn c125_4() -> bool { let a: i64 = i64::MAX; let got: bool = a.is_negative(); let exp: bool = false; got == exp }
pub fn s125_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: bool = a.is_negative(); let exp: bool = false; got == exp }
pub fn c125_5() -> bool { let a: i64 = i64::MIN; let got: bool = a.is_negative(); let exp: bool = true; got == exp }
pub fn s125_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: bool = a.is_negative(); let exp: bool = true; got == exp }
pub fn c125_6() -> bool { let a: i64 = i64::MAX - 1; let got: bool = a.is_negative(); let exp: bool = false; got == exp }
pub fn s125_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: bool = a.is_negative(); let exp: bool = false; got == exp }
pub fn c126_0() -> bool { let a: i64 = 0; let got: bool = a.is_positive(); let exp: bool = false; got == exp }
pub fn s126_0(a: i64) -> bool { if !(a == 0) { return true; } let got: bool = a.is_positive(); let exp: bool = false; got == exp }
pub fn c126_1() -> bool { let a: i64 = 1; let got: bool = a.is_positive(); let exp: bool = true; got == exp }
pub fn s126_1(a: i64) -> bool { if !(a == 1) { return true; } let got: bool = a.is_positive(); let exp: bool = true; got == exp }
pub fn c126_2() -> bool { let a: i64 = -1; let got: bool = a.is_positive(); let exp: bool = false; got == exp }
pub fn s126_2(a: i64) -> bool { if !(a == -1) { return true; } let got: bool = a.is_positive(); let exp: bool = false; got == exp }
pub fn c126_3() -> bool { let a: i64 = 41; let got: bool = a.is_positive(); let exp: bool = true; got == exp }
pub fn s126_3(a: i64) -> bool { if !(a == 41) { return true; } let got: bool = a.is_positive(); let exp: bool = true; got == exp }
pub fn c126_4() -> bool { let a: i64 = i64::MAX; let got: bool = a.is_positive(); let exp: bool = true; got == exp }
pub fn s126_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: bool = a.is_positive(); let exp: bool = true; got == exp }
pub fn c126_5() -> bool { let a: i64 = i64::MIN; let got: bool = a.is_positive(); let exp: bool = false; got == exp }
pub fn s126_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: bool = a.is_positive(); let exp: bool = false; got == exp }
pub fn c126_6() -> bool { let a: i64 = i64::MAX - 1; let got: bool = a.is_positive(); let exp: bool = true; got == exp }
pub fn s126_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: bool = a.is_positive(); let exp: bool = true; got == exp }
pub fn c127_0() -> bool { let a: i64 = 0; let got: bool = a == 41; let exp: bool = false; got == exp }
pub fn s127_0(a: i64) -> bool { if !(a == 0) { return true; } let got: bool = a == 41; let exp: bool = false; got == exp }
pub fn c127_1() -> bool { let a: i64 = 1; let got: bool = a == 41; let exp: bool = false; got == exp }
pub fn s127_1(a: i64) -> bool { if !(a == 1) { return true; } let got: bool = a == 41; let exp: bool = false; got == exp }
pub fn c127_2() -> bool { let a: i64 = -1; let got: bool = a == 41; let exp: bool = false; got == exp }
pub fn s127_2(a: i64) -> bool { if !(a == -1) { return true; } let got: bool = a == 41; let exp: bool = false; got == exp }
pub fn c127_3() -> bool { let a: i64 = 41; let got: bool = a == 41; let exp: bool = true; got == exp }
pub fn s127_3(a: i64) -> bool { if !(a == 41) { return true; } let got: bool = a == 41; let exp: bool = true; got == exp }
pub fn c127_4() -> bool { let a: i64 = i64::MAX; let got: bool = a == 41; let exp: bool = false; got == exp }
pub fn s127_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: bool = a == 41; let exp: bool = false; got == exp }
pub fn c127_5() -> bool { let a: i64 = i64::MIN; let got: bool = a == 41; let exp: bool = false; got == exp }
pub fn s127_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: bool = a == 41; let exp: bool = false; got == exp }
pub fn c127_6() -> bool { let a: i64 = i64::MAX - 1; let got: bool = a == 41; let exp: bool = false; got == exp }
pub fn s127_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: bool = a == 41; let exp: bool = false; got == exp }
pub fn c128_0() -> bool { let a: i64 = 0; let got: bool = a >= 0 && a < 42; let exp: bool = true; got == exp }
pub fn s128_0(a: i64) -> bool { if !(a == 0) { return true; } let got: bool = a >= 0 && a < 42; let exp: bool = true; got == exp }
pub fn c128_1() -> bool { let a: i64 = 1; let got: bool = a >= 0 && a < 42; let exp: bool = true; got == exp }
pub fn s128_1(a: i64) -> bool { if !(a == 1) { return true; } let got: bool = a >= 0 && a < 42; let exp: bool = true; got == exp }
pub fn c128_2() -> bool { let a: i64 = -1; let got: bool = a >= 0 && a < 42; let exp: bool = false; got == exp }
pub fn s128_2(a: i64) -> bool { if !(a == -1) { return true; } let got: bool = a >= 0 && a < 42; let exp: bool = false; got == exp }
pub fn c128_3() -> bool { let a: i64 = 41; let got: bool = a >= 0 && a < 42; let exp: bool = true; got == exp }
pub fn s128_3(a: i64) -> bool { if !(a == 41) { return true; } let got: bool = a >= 0 && a < 42; let exp: bool = true; got == exp }
pub fn c128_4() -> bool { let a: i64 = i64::MAX; let got: bool = a >= 0 && a < 42; let exp: bool = false; got == exp }
pub fn s128_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: bool = a >= 0 && a < 42; let exp: bool = false; got == exp }
pub fn c128_5() -> bool { let a: i64 = i64::MIN; let got: bool = a >= 0 && a < 42; let exp: bool = false; got == exp }
pub fn s128_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: bool = a >= 0 && a < 42; let exp: bool = false; got == exp }
pub fn c128_6() -> bool { let a: i64 = i64::MAX - 1; let got: bool = a >= 0 && a < 42; let exp: bool = false; got == exp }
pub fn s128_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: bool = a >= 0 && a < 42; let exp: bool = false; got == exp }
pub fn c129_0() -> bool { let a: i64 = 0; let got: bool = a < 0 || a > 41; let exp: bool = false; got == exp }
pub fn s129_0(a: i64) -> bool { if !(a == 0) { return true; } let got: bool = a < 0 || a > 41; let exp: bool = false; got == exp }
pub fn c129_1() -> bool { let a: i64 = 1; let got: bool = a < 0 || a > 41; let exp: bool = false; got == exp }
pub fn s129_1(a: i64) -> bool { if !(a == 1) { return true; } let got: bool = a < 0 || a > 41; let exp: bool = false; got == exp }
pub fn c129_2() -> bool { let a: i64 = -1; let got: bool = a < 0 || a > 41; let exp: bool = true; got == exp }
pub fn s129_2(a: i64) -> bool { if !(a == -1) { return true; } let got: bool = a < 0 || a > 41; let exp: bool = true; got == exp }
pub fn c129_3() -> bool { let a: i64 = 41; let got: bool = a < 0 || a > 41; let exp: bool = false; got == exp }
pub fn s129_3(a: i64) -> bool { if !(a == 41) { return true; } let got: bool = a < 0 || a > 41; let exp: bool = false; got == exp }
pub fn c129_4() -> bool { let a: i64 = i64::MAX; let got: bool = a < 0 || a > 41; let exp: bool = true; got == exp }
pub fn s129_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: bool = a < 0 || a > 41; let exp: bool = true; got == exp }
pub fn c129_5() -> bool { let a: i64 = i64::MIN; let got: bool = a < 0 || a > 41; let exp: bool = true; got == exp }
pub fn s129_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: bool = a < 0 || a > 41; let exp: bool = true; got == exp }
pub fn c129_6() -> bool { let a: i64 = i64::MAX - 1; let got: bool = a < 0 || a > 41; let exp: bool = true; got == exp }
pub fn s129_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: bool = a < 0 || a > 41; let exp: bool = true; got == exp }
pub fn c130_0() -> bool { let a: i64 = 0; let got: bool = !(a > 0); let exp: bool = true; got == exp }
pub fn s130_0(a: i64) -> bool { if !(a == 0) { return true; } let got: bool = !(a > 0); let exp: bool = true; got == exp }
pub fn c130_1() -> bool { let a: i64 = 1; let got: bool = !(a > 0); let exp: bool = false; got == exp }
pub fn s130_1(a: i64) -> bool { if !(a == 1) { return true; } let got: bool = !(a > 0); let exp: bool = false; got == exp }
pub fn c130_2() -> bool { let a: i64 = -1; let got: bool = !(a > 0); let exp: bool = true; got == exp }
pub fn s130_2(a: i64) -> bool { if !(a == -1) { return true; } let got: bool = !(a > 0); let exp: bool = true; got == exp }
pub fn c130_3() -> bool { let a: i64 = 41; let got: bool = !(a > 0); let exp: bool = false; got == exp }
pub fn s130_3(a: i64) -> bool { if !(a == 41) { return true; } let got: bool = !(a > 0); let exp: bool = false; got == exp }
pub fn c130_4() -> bool { let a: i64 = i64::MAX; let got: bool = !(a > 0); let exp: bool = false; got == exp }
pub fn s130_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: bool = !(a > 0); let exp: bool = false; got == exp }
pub fn c130_5() -> bool { let a: i64 = i64::MIN; let got: bool = !(a > 0); let exp: bool = true; got == exp }
pub fn s130_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: bool = !(a > 0); let exp: bool = true; got == exp }
pub fn c130_6() -> bool { let a: i64 = i64::MAX - 1; let got: bool = !(a > 0); let exp: bool = false; got == exp }
pub fn s130_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: bool = !(a > 0); let exp: bool = false; got == exp }
pub fn c131_0() -> bool { let a: i64 = 0; let got: bool = u8::try_from(a).is_ok(); let exp: bool = true; got == exp }
pub fn s131_0(a: i64) -> bool { if !(a == 0) { return true; } let got: bool = u8::try_from(a).is_ok(); let exp: bool = true; got == exp }
pub fn c131_1() -> bool { let a: i64 = 1; let got: bool = u8::try_from(a).is_ok(); let exp: bool = true; got == exp }
pub fn s131_1(a: i64) -> bool { if !(a == 1) { return true; } let got: bool = u8::try_from(a).is_ok(); let exp: bool = true; got == exp }
pub fn c131_2() -> bool { let a: i64 = -1; let got: bool = u8::try_from(a).is_ok(); let exp: bool = false; got == exp }
pub fn s131_2(a: i64) -> bool { if !(a == -1) { return true; } let got: bool = u8::try_from(a).is_ok(); let exp: bool = false; got == exp }
pub fn c131_3() -> bool { let a: i64 = 41; let got: bool = u8::try_from(a).is_ok(); let exp: bool = true; got == exp }
pub fn s131_3(a: i64) -> bool { if !(a == 41) { return true; } let got: bool = u8::try_from(a).is_ok(); let exp: bool = true; got == exp }
pub fn c131_4() -> bool { let a: i64 = i64::MAX; let got: bool = u8::try_from(a).is_ok(); let exp: bool = false; got == exp }
pub fn s131_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: bool = u8::try_from(a).is_ok(); let exp: bool = false; got == exp }
pub fn c131_5() -> bool { let a: i64 = i64::MIN; let got: bool = u8::try_from(a).is_ok(); let exp: bool = false; got == exp }
pub fn s131_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: bool = u8::try_from(a).is_ok(); let exp: bool = false; got == exp }
pub fn c131_6() -> bool { let a: i64 = i64::MAX - 1; let got: bool = u8::try_from(a).is_ok(); let exp: bool = false; got == exp }
pub fn s131_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: bool = u8::try_from(a).is_ok(); let exp: bool = false; got == exp }
pub fn c132_0() -> bool { let a: i64 = 0; let got: Option<u32> = u32::try_from(a).ok(); let exp: Option<u32> = Some(0); got == exp }
pub fn s132_0(a: i64) -> bool { if !(a == 0) { return true; } let got: Option<u32> = u32::try_from(a).ok(); let exp: Option<u32> = Some(0); got == exp }
pub fn c132_1() -> bool { let a: i64 = 1; let got: Option<u32> = u32::try_from(a).ok(); let exp: Option<u32> = Some(1); got == exp }
pub fn s132_1(a: i64) -> bool { if !(a == 1) { return true; } let got: Option<u32> = u32::try_from(a).ok(); let exp: Option<u32> = Some(1); got == exp }
pub fn c132_2() -> bool { let a: i64 = -1; let got: Option<u32> = u32::try_from(a).ok(); let exp: Option<u32> = None; got == exp }
pub fn s132_2(a: i64) -> bool { if !(a == -1) { return true; } let got: Option<u32> = u32::try_from(a).ok(); let exp: Option<u32> = None; got == exp }
pub fn c132_3() -> bool { let a: i64 = 41; let got: Option<u32> = u32::try_from(a).ok(); let exp: Option<u32> = Some(41); got == exp }
pub fn s132_3(a: i64) -> bool { if !(a == 41) { return true; } let got: Option<u32> = u32::try_from(a).ok(); let exp: Option<u32> = Some(41); got == exp }
pub fn c132_4() -> bool { let a: i64 = i64::MAX; let got: Option<u32> = u32::try_from(a).ok(); let exp: Option<u32> = None; got == exp }
pub fn s132_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: Option<u32> = u32::try_from(a).ok(); let exp: Option<u32> = None; got == exp }
pub fn c132_5() -> bool { let a: i64 = i64::MIN; let got: Option<u32> = u32::try_from(a).ok(); let exp: Option<u32> = None; got == exp }
pub fn s132_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: Option<u32> = u32::try_from(a).ok(); let exp: Option<u32> = None; got == exp }
pub fn c132_6() -> bool { let a: i64 = i64::MAX - 1; let got: Option<u32> = u32::try_from(a).ok(); let exp: Option<u32> = None; got == exp }
pub fn s132_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: Option<u32> = u32::try_from(a).ok(); let exp: Option<u32> = None; got == exp }
pub fn c133_0() -> bool { let a: u64 = 0; let got: Option<i64> = i64::try_from(a).ok(); let exp: Option<i64> = Some(0); got == exp }
pub fn c133_1() -> bool { let a: u64 = 9; let got: Option<i64> = i64::try_from(a).ok(); let exp: Option<i64> = Some(9); got == exp }
pub fn c133_2() -> bool { let a: u64 = u64::MAX; let got: Option<i64> = i64::try_from(a).ok(); let exp: Option<i64> = None; got == exp }
pub fn c134_0() -> bool { let a: u8 = 0; let got: u8 = a & 15; let exp: u8 = 0; got == exp }
pub fn s134_0(a: u8) -> bool { if !(a == 0) { return true; } let got: u8 = a & 15; let exp: u8 = 0; got == exp }
pub fn c134_1() -> bool { let a: u8 = 1; let got: u8 = a & 15; let exp: u8 = 1; got == exp }
pub fn s134_1(a: u8) -> bool { if !(a == 1) { return true; } let got: u8 = a & 15; let exp: u8 = 1; got == exp }
pub fn c134_2() -> bool { let a: u8 = 200; let got: u8 = a & 15; let exp: u8 = 8; got == exp }
pub fn s134_2(a: u8) -> bool { if !(a == 200) { return true; } let got: u8 = a & 15; let exp: u8 = 8; got == exp }
pub fn c134_3() -> bool { let a: u8 = 255; let got: u8 = a & 15; let exp: u8 = 15; got == exp }
pub fn s134_3(a: u8) -> bool { if !(a == 255) { return true; } let got: u8 = a & 15; let exp: u8 = 15; got == exp }
pub fn c135_0() -> bool { let a: u8 = 0; let got: u8 = a | 1; let exp: u8 = 1; got == exp }
pub fn s135_0(a: u8) -> bool { if !(a == 0) { return true; } let got: u8 = a | 1; let exp: u8 = 1; got == exp }
pub fn c135_1() -> bool { let a: u8 = 1; let got: u8 = a | 1; let exp: u8 = 1; got == exp }
pub fn s135_1(a: u8) -> bool { if !(a == 1) { return true; } let got: u8 = a | 1; let exp: u8 = 1; got == exp }
pub fn c135_2() -> bool { let a: u8 = 200; let got: u8 = a | 1; let exp: u8 = 201; got == exp }
pub fn s135_2(a: u8) -> bool { if !(a == 200) { return true; } let got: u8 = a | 1; let exp: u8 = 201; got == exp }
pub fn c135_3() -> bool { let a: u8 = 255; let got: u8 = a | 1; let exp: u8 = 255; got == exp }
pub fn s135_3(a: u8) -> bool { if !(a == 255) { return true; } let got: u8 = a | 1; let exp: u8 = 255; got == exp }
pub fn c136_0() -> bool { let a: u8 = 0; let got: u8 = a ^ 3; let exp: u8 = 3; got == exp }
pub fn s136_0(a: u8) -> bool { if !(a == 0) { return true; } let got: u8 = a ^ 3; let exp: u8 = 3; got == exp }
pub fn c136_1() -> bool { let a: u8 = 1; let got: u8 = a ^ 3; let exp: u8 = 2; got == exp }
pub fn s136_1(a: u8) -> bool { if !(a == 1) { return true; } let got: u8 = a ^ 3; let exp: u8 = 2; got == exp }
pub fn c136_2() -> bool { let a: u8 = 200; let got: u8 = a ^ 3; let exp: u8 = 203; got == exp }
pub fn s136_2(a: u8) -> bool { if !(a == 200) { return true; } let got: u8 = a ^ 3; let exp: u8 = 203; got == exp }
pub fn c136_3() -> bool { let a: u8 = 255; let got: u8 = a ^ 3; let exp: u8 = 252; got == exp }
pub fn s136_3(a: u8) -> bool { if !(a == 255) { return true; } let got: u8 = a ^ 3; let exp: u8 = 252; got == exp }
pub fn c137_0() -> bool { let a: u8 = 0; let got: u8 = a >> 2; let exp: u8 = 0; got == exp }
pub fn s137_0(a: u8) -> bool { if !(a == 0) { return true; } let got: u8 = a >> 2; let exp: u8 = 0; got == exp }
pub fn c137_1() -> bool { let a: u8 = 1; let got: u8 = a >> 2; let exp: u8 = 0; got == exp }
pub fn s137_1(a: u8) -> bool { if !(a == 1) { return true; } let got: u8 = a >> 2; let exp: u8 = 0; got == exp }
pub fn c137_2() -> bool { let a: u8 = 200; let got: u8 = a >> 2; let exp: u8 = 50; got == exp }
pub fn s137_2(a: u8) -> bool { if !(a == 200) { return true; } let got: u8 = a >> 2; let exp: u8 = 50; got == exp }
pub fn c137_3() -> bool { let a: u8 = 255; let got: u8 = a >> 2; let exp: u8 = 63; got == exp }
pub fn s137_3(a: u8) -> bool { if !(a == 255) { return true; } let got: u8 = a >> 2; let exp: u8 = 63; got == exp }
pub fn c138_0() -> bool { let a: u8 = 0; let got: u8 = a << 1; let exp: u8 = 0; got == exp }
pub fn s138_0(a: u8) -> bool { if !(a == 0) { return true; } let got: u8 = a << 1; let exp: u8 = 0; got == exp }
pub fn c138_1() -> bool { let a: u8 = 1; let got: u8 = a << 1; let exp: u8 = 2; got == exp }
pub fn s138_1(a: u8) -> bool { if !(a == 1) { return true; } let got: u8 = a << 1; let exp: u8 = 2; got == exp }
pub fn c138_2() -> bool { let a: u8 = 200; let got: u8 = a << 1; let exp: u8 = 144; got == exp }
pub fn s138_2(a: u8) -> bool { if !(a == 200) { return true; } let got: u8 = a << 1; let exp: u8 = 144; got == exp }
pub fn c138_3() -> bool { let a: u8 = 255; let got: u8 = a << 1; let exp: u8 = 254; got == exp }
pub fn s138_3(a: u8) -> bool { if !(a == 255) { return true; } let got: u8 = a << 1; let exp: u8 = 254; got == exp }
pub fn c139_0() -> bool { let a: i64 = 0; let got: String = format!("{}", a); let exp: String = String::from("\u{30}"); got == exp }
pub fn s139_0(a: i64) -> bool { if !(a == 0) { return true; } let got: String = format!("{}", a); let exp: String = String::from("\u{30}"); got == exp }
pub fn c139_1() -> bool { let a: i64 = 1; let got: String = format!("{}", a); let exp: String = String::from("\u{31}"); got == exp }
pub fn s139_1(a: i64) -> bool { if !(a == 1) { return true; } let got: String = format!("{}", a); let exp: String = String::from("\u{31}"); got == exp }
pub fn c139_2() -> bool { let a: i64 = -1; let got: String = format!("{}", a); let exp: String = String::from("\u{2d}\u{31}"); got == exp }
pub fn s139_2(a: i64) -> bool { if !(a == -1) { return true; } let got: String = format!("{}", a); let exp: String = String::from("\u{2d}\u{31}"); got == exp }
pub fn c139_3() -> bool { let a: i64 = 41; let got: String = format!("{}", a); let exp: String = String::from("\u{34}\u{31}"); got == exp }
pub fn s139_3(a: i64) -> bool { if !(a == 41) { return true; } let got: String = format!("{}", a); let exp: String = String::from("\u{34}\u{31}"); got == exp }
pub fn c139_4() -> bool { let a: i64 = i64::MAX; let got: String = format!("{}", a); let exp: String = String::from("\u{39}\u{32}\u{32}\u{33}\u{33}\u{37}\u{32}\u{30}\u{33}\u{36}\u{38}\u{35}\u{34}\u{37}\u{37}\u{35}\u{38}\u{30}\u{37}"); got == exp }
pub fn s139_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: String = format!("{}", a); let exp: String = String::from("\u{39}\u{32}\u{32}\u{33}\u{33}\u{37}\u{32}\u{30}\u{33}\u{36}\u{38}\u{35}\u{34}\u{37}\u{37}\u{35}\u{38}\u{30}\u{37}"); got == exp }
pub fn c139_5() -> bool { let a: i64 = i64::MIN; let got: String = format!("{}", a); let exp: String = String::from("\u{2d}\u{39}\u{32}\u{32}\u{33}\u{33}\u{37}\u{32}\u{30}\u{33}\u{36}\u{38}\u{35}\u{34}\u{37}\u{37}\u{35}\u{38}\u{30}\u{38}"); got == exp }
pub fn s139_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: String = format!("{}", a); let exp: String = String::from("\u{2d}\u{39}\u{32}\u{32}\u{33}\u{33}\u{37}\u{32}\u{30}\u{33}\u{36}\u{38}\u{35}\u{34}\u{37}\u{37}\u{35}\u{38}\u{30}\u{38}"); got == exp }
pub fn c139_6() -> bool { let a: i64 = i64::MAX - 1; let got: String = format!("{}", a); let exp: String = String::from("\u{39}\u{32}\u{32}\u{33}\u{33}\u{37}\u{32}\u{30}\u{33}\u{36}\u{38}\u{35}\u{34}\u{37}\u{37}\u{35}\u{38}\u{30}\u{36}"); got == exp }
pub fn s139_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: String = format!("{}", a); let exp: String = String::from("\u{39}\u{32}\u{32}\u{33}\u{33}\u{37}\u{32}\u{30}\u{33}\u{36}\u{38}\u{35}\u{34}\u{37}\u{37}\u{35}\u{38}\u{30}\u{36}"); got == exp }
pub fn c140_0() -> bool { let a: i64 = 0; let got: String = format!("{:?}", a); let exp: String = String::from("\u{30}"); got == exp }
pub fn s140_0(a: i64) -> bool { if !(a == 0) { return true; } let got: String = format!("{:?}", a); let exp: String = String::from("\u{30}"); got == exp }
pub fn c140_1() -> bool { let a: i64 = 1; let got: String = format!("{:?}", a); let exp: String = String::from("\u{31}"); got == exp }
pub fn s140_1(a: i64) -> bool { if !(a == 1) { return true; } let got: String = format!("{:?}", a); let exp: String = String::from("\u{31}"); got == exp }
pub fn c140_2() -> bool { let a: i64 = -1; let got: String = format!("{:?}", a); let exp: String = String::from("\u{2d}\u{31}"); got == exp }
pub fn s140_2(a: i64) -> bool { if !(a == -1) { return true; } let got: String = format!("{:?}", a); let exp: String = String::from("\u{2d}\u{31}"); got == exp }
pub fn c140_3() -> bool { let a: i64 = 41; let got: String = format!("{:?}", a); let exp: String = String::from("\u{34}\u{31}"); got == exp }
pub fn s140_3(a: i64) -> bool { if !(a == 41) { return true; } let got: String = format!("{:?}", a); let exp: String = String::from("\u{34}\u{31}"); got == exp }
pub fn c140_4() -> bool { let a: i64 = i64::MAX; let got: String = format!("{:?}", a); let exp: String = String::from("\u{39}\u{32}\u{32}\u{33}\u{33}\u{37}\u{32}\u{30}\u{33}\u{36}\u{38}\u{35}\u{34}\u{37}\u{37}\u{35}\u{38}\u{30}\u{37}"); got == exp }
pub fn s140_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: String = format!("{:?}", a); let exp: String = String::from("\u{39}\u{32}\u{32}\u{33}\u{33}\u{37}\u{32}\u{30}\u{33}\u{36}\u{38}\u{35}\u{34}\u{37}\u{37}\u{35}\u{38}\u{30}\u{37}"); got == exp }
pub fn c140_5() -> bool { let a: i64 = i64::MIN; let got: String = format!("{:?}", a); let exp: String = String::from("\u{2d}\u{39}\u{32}\u{32}\u{33}\u{33}\u{37}\u{32}\u{30}\u{33}\u{36}\u{38}\u{35}\u{34}\u{37}\u{37}\u{35}\u{38}\u{30}\u{38}"); got == exp }
pub fn s140_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: String = format!("{:?}", a); let exp: String = String::from("\u{2d}\u{39}\u{32}\u{32}\u{33}\u{33}\u{37}\u{32}\u{30}\u{33}\u{36}\u{38}\u{35}\u{34}\u{37}\u{37}\u{35}\u{38}\u{30}\u{38}"); got == exp }
pub fn c140_6() -> bool { let a: i64 = i64::MAX - 1; let got: String = format!("{:?}", a); let exp: String = String::from("\u{39}\u{32}\u{32}\u{33}\u{33}\u{37}\u{32}\u{30}\u{33}\u{36}\u{38}\u{35}\u{34}\u{37}\u{37}\u{35}\u{38}\u{30}\u{36}"); got == exp }
pub fn s140_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: String = format!("{:?}", a); let exp: String = String::from("\u{39}\u{32}\u{32}\u{33}\u{33}\u{37}\u{32}\u{30}\u{33}\u{36}\u{38}\u{35}\u{34}\u{37}\u{37}\u{35}\u{38}\u{30}\u{36}"); got == exp }
pub fn c141_0() -> bool { let a: i64 = 0; let got: String = format!("[{}]", a); let exp: String = String::from("\u{5b}\u{30}\u{5d}"); got == exp }
pub fn s141_0(a: i64) -> bool { if !(a == 0) { return true; } let got: String = format!("[{}]", a); let exp: String = String::from("\u{5b}\u{30}\u{5d}"); got == exp }
pub fn c141_1() -> bool { let a: i64 = 1; let got: String = format!("[{}]", a); let exp: String = String::from("\u{5b}\u{31}\u{5d}"); got == exp }
pub fn s141_1(a: i64) -> bool { if !(a == 1) { return true; } let got: String = format!("[{}]", a); let exp: String = String::from("\u{5b}\u{31}\u{5d}"); got == exp }
pub fn c141_2() -> bool { let a: i64 = -1; let got: String = format!("[{}]", a); let exp: String = String::from("\u{5b}\u{2d}\u{31}\u{5d}"); got == exp }
pub fn s141_2(a: i64) -> bool { if !(a == -1) { return true; } let got: String = format!("[{}]", a); let exp: String = String::from("\u{5b}\u{2d}\u{31}\u{5d}"); got == exp }
pub fn c141_3() -> bool { let a: i64 = 41; let got: String = format!("[{}]", a); let exp: String = String::from("\u{5b}\u{34}\u{31}\u{5d}"); got == exp }
pub fn s141_3(a: i64) -> bool { if !(a == 41) { return true; } let got: String = format!("[{}]", a); let exp: String = String::from("\u{5b}\u{34}\u{31}\u{5d}"); got == exp }
pub fn c141_4() -> bool { let a: i64 = i64::MAX; let got: String = format!("[{}]", a); let exp: String = String::from("\u{5b}\u{39}\u{32}\u{32}\u{33}\u{33}\u{37}\u{32}\u{30}\u{33}\u{36}\u{38}\u{35}\u{34}\u{37}\u{37}\u{35}\u{38}\u{30}\u{37}\u{5d}"); got == exp }
pub fn s141_4(a: i64) -> bool { if !(a == i64::MAX) { return true; } let got: String = format!("[{}]", a); let exp: String = String::from("\u{5b}\u{39}\u{32}\u{32}\u{33}\u{33}\u{37}\u{32}\u{30}\u{33}\u{36}\u{38}\u{35}\u{34}\u{37}\u{37}\u{35}\u{38}\u{30}\u{37}\u{5d}"); got == exp }
pub fn c141_5() -> bool { let a: i64 = i64::MIN; let got: String = format!("[{}]", a); let exp: String = String::from("\u{5b}\u{2d}\u{39}\u{32}\u{32}\u{33}\u{33}\u{37}\u{32}\u{30}\u{33}\u{36}\u{38}\u{35}\u{34}\u{37}\u{37}\u{35}\u{38}\u{30}\u{38}\u{5d}"); got == exp }
pub fn s141_5(a: i64) -> bool { if !(a == i64::MIN) { return true; } let got: String = format!("[{}]", a); let exp: String = String::from("\u{5b}\u{2d}\u{39}\u{32}\u{32}\u{33}\u{33}\u{37}\u{32}\u{30}\u{33}\u{36}\u{38}\u{35}\u{34}\u{37}\u{37}\u{35}\u{38}\u{30}\u{38}\u{5d}"); got == exp }
pub fn c141_6() -> bool { let a: i64 = i64::MAX - 1; let got: String = format!("[{}]", a); let exp: String = String::from("\u{5b}\u{39}\u{32}\u{32}\u{33}\u{33}\u{37}\u{32}\u{30}\u{33}\u{36}\u{38}\u{35}\u{34}\u{37}\u{37}\u{35}\u{38}\u{30}\u{36}\u{5d}"); got == exp }
pub fn s141_6(a: i64) -> bool { if !(a == i64::MAX - 1) { return true; } let got: String = format!("[{}]", a); let exp: String = String::from("\u{5b}\u{39}\u{32}\u{32}\u{33}\u{33}\u{37}\u{32}\u{30}\u{33}\u{36}\u{38}\u{35}\u{34}\u{37}\u{37}\u{35}\u{38}\u{30}\u{36}\u{5d}"); got == exp }
pub fn c142_0() -> bool { let a: u32 = 0; let b: bool = true; let got: String = format!("{}{}", a, b); let exp: String = String::from("\u{30}\u{74}\u{72}\u{75}\u{65}"); got == exp }
pub fn s142_0(a: u32, b: bool) -> bool { if !(a == 0 && b == true) { return true; } let got: String = format!("{}{}", a, b); let exp: String = String::from("\u{30}\u{74}\u{72}\u{75}\u{65}"); got == exp }
pub fn c142_1() -> bool { let a: u32 = 0; let b: bool = false; let got: String = format!("{}{}", a, b); let exp: String = String::from("\u{30}\u{66}\u{61}\u{6c}\u{73}\u{65}"); got == exp }
pub fn s142_1(a: u32, b: bool) -> bool { if !(a == 0 && b == false) { return true; } let got: String = format!("{}{}", a, b); let exp: String = String::from("\u{30}\u{66}\u{61}\u{6c}\u{73}\u{65}"); got == exp }
pub fn c142_2() -> bool { let a: u32 = 1; let b: bool = true; let got: String = format!("{}{}", a, b); let exp: String = String::from("\u{31}\u{74}\u{72}\u{75}\u{65}"); got == exp }
pub fn s142_2(a: u32, b: bool) -> bool { if !(a == 1 && b == true) { return true; } let got: String = format!("{}{}", a, b); let exp: String = String::from("\u{31}\u{74}\u{72}\u{75}\u{65}"); got == exp }
pub fn c142_3() -> bool { let a: u32 = 1; let b: bool = false; let got: String = format!("{}{}", a, b); let exp: String = String::from("\u{31}\u{66}\u{61}\u{6c}\u{73}\u{65}"); got == exp }
pub fn s142_3(a: u32, b: bool) -> bool { if !(a == 1 && b == false) { return true; } let got: String = format!("{}{}", a, b); let exp: String = String::from("\u{31}\u{66}\u{61}\u{6c}\u{73}\u{65}"); got == exp }
pub fn c142_4() -> bool { let a: u32 = 7; let b: bool = true; let got: String = format!("{}{}", a, b); let exp: String = String::from("\u{37}\u{74}\u{72}\u{75}\u{65}"); got == exp }
pub fn s142_4(a: u32, b: bool) -> bool { if !(a == 7 && b == true) { return true; } let got: String = format!("{}{}", a, b); let exp: String = String::from("\u{37}\u{74}\u{72}\u{75}\u{65}"); got == exp }
pub fn c142_5() -> bool { let a: u32 = 7; let b: bool = false; let got: String = format!("{}{}", a, b); let exp: String = String::from("\u{37}\u{66}\u{61}\u{6c}\u{73}\u{65}"); got == exp }
pub fn s142_5(a: u32, b: bool) -> bool { if !(a == 7 && b == false) { return true; } let got: String = format!("{}{}", a, b); let exp: String = String::from("\u{37}\u{66}\u{61}\u{6c}\u{73}\u{65}"); got == exp }
pub fn c142_6() -> bool { let a: u32 = u32::MAX; let b: bool = true; let got: String = format!("{}{}", a, b); let exp: String = String::from("\u{34}\u{32}\u{39}\u{34}\u{39}\u{36}\u{37}\u{32}\u{39}\u{35}\u{74}\u{72}\u{75}\u{65}"); got == exp }
pub fn s142_6(a: u32, b: bool) -> bool { if !(a == u32::MAX && b == true) { return true; } let got: String = format!("{}{}", a, b); let exp: String = String::from("\u{34}\u{32}\u{39}\u{34}\u{39}\u{36}\u{37}\u{32}\u{39}\u{35}\u{74}\u{72}\u{75}\u{65}"); got == exp }
pub fn c142_7() -> bool { let a: u32 = u32::MAX; let b: bool = false; let got: String = format!("{}{}", a, b); let exp: String = String::from("\u{34}\u{32}\u{39}\u{34}\u{39}\u{36}\u{37}\u{32}\u{39}\u{35}\u{66}\u{61}\u{6c}\u{73}\u{65}"); got == exp }
pub fn s142_7(a: u32, b: bool) -> bool { if !(a == u32::MAX && b == false) { return true; } let got: String = format!("{}{}", a, b); let exp: String = String::from("\u{34}\u{32}\u{39}\u{34}\u{39}\u{36}\u{37}\u{32}\u{39}\u{35}\u{66}\u{61}\u{6c}\u{73}\u{65}"); got == exp }
pub fn c143_0() -> bool { let a: u32 = 0; let got: String = format!("{:x}", a); let exp: String = String::from("\u{30}"); got == exp }
pub fn s143_0(a: u32) -> bool { if !(a == 0) { return true; } let got: String = format!("{:x}", a); let exp: String = String::from("\u{30}"); got == exp }
pub fn c143_1() -> bool { let a: u32 = 1; let got: String = format!("{:x}", a); let exp: String = String::from("\u{31}"); got == exp }
pub fn s143_1(a: u32) -> bool { if !(a == 1) { return true; } let got: String = format!("{:x}", a); let exp: String = String::from("\u{31}"); got == exp }
pub fn c143_2() -> bool { let a: u32 = 7; let got: String = format!("{:x}", a); let exp: String = String::from("\u{37}"); got == exp }
pub fn s143_2(a: u32) -> bool { if !(a == 7) { return true; } let got: String = format!("{:x}", a); let exp: String = String::from("\u{37}"); got == exp }
pub fn c143_3() -> bool { let a: u32 = u32::MAX; let got: String = format!("{:x}", a); let exp: String = String::from("\u{66}\u{66}\u{66}\u{66}\u{66}\u{66}\u{66}\u{66}"); got == exp }
pub fn s143_3(a: u32) -> bool { if !(a == u32::MAX) { return true; } let got: String = format!("{:x}", a); let exp: String = String::from("\u{66}\u{66}\u{66}\u{66}\u{66}\u{66}\u{66}\u{66}"); got == exp }
pub fn c144_0() -> bool { let a: u32 = 0; let got: String = format!("{a:03}"); let exp: String = String::from("\u{30}\u{30}\u{30}"); got == exp }
pub fn s144_0(a: u32) -> bool { if !(a == 0) { return true; } let got: String = format!("{a:03}"); let exp: String = String::from("\u{30}\u{30}\u{30}"); got == exp }
pub fn c144_1() -> bool { let a: u32 = 1; let got: String = format!("{a:03}"); let exp: String = String::from("\u{30}\u{30}\u{31}"); got == exp }
pub fn s144_1(a: u32) -> bool { if !(a == 1) { return true; } let got: String = format!("{a:03}"); let exp: String = String::from("\u{30}\u{30}\u{31}"); got == exp }
pub fn c144_2() -> bool { let a: u32 = 7; let got: String = format!("{a:03}"); let exp: String = String::from("\u{30}\u{30}\u{37}"); got == exp }
pub fn s144_2(a: u32) -> bool { if !(a == 7) { return true; } let got: String = format!("{a:03}"); let exp: String = String::from("\u{30}\u{30}\u{37}"); got == exp }
pub fn c144_3() -> bool { let a: u32 = u32::MAX; let got: String = format!("{a:03}"); let exp: String = String::from("\u{34}\u{32}\u{39}\u{34}\u{39}\u{36}\u{37}\u{32}\u{39}\u{35}"); got == exp }
pub fn s144_3(a: u32) -> bool { if !(a == u32::MAX) { return true; } let got: String = format!("{a:03}"); let exp: String = String::from("\u{34}\u{32}\u{39}\u{34}\u{39}\u{36}\u{37}\u{32}\u{39}\u{35}"); got == exp }
pub fn c145_0() -> bool { let o: Option<i64> = None; let got: Option<i64> = o.map(|x| x + 1); let exp: Option<i64> = None; got == exp }
pub fn c145_1() -> bool { let o: Option<i64> = Some(0); let got: Option<i64> = o.map(|x| x + 1); let exp: Option<i64> = Some(1); got == exp }
pub fn c145_2() -> bool { let o: Option<i64> = Some(3); let got: Option<i64> = o.map(|x| x + 1); let exp: Option<i64> = Some(4); got == exp }
pub fn c145_3() -> bool { let o: Option<i64> = Some(-4); let got: Option<i64> = o.map(|x| x + 1); let exp: Option<i64> = Some(-3); got == exp }
pub fn c146_0() -> bool { let o: Option<i64> = None; let got: Option<i64> = o.filter(|x| *x > 0); let exp: Option<i64> = None; got == exp }
pub fn c146_1() -> bool { let o: Option<i64> = Some(0); let got: Option<i64> = o.filter(|x| *x > 0); let exp: Option<i64> = None; got == exp }
pub fn c146_2() -> bool { let o: Option<i64> = Some(3); let got: Option<i64> = o.filter(|x| *x > 0); let exp: Option<i64> = Some(3); got == exp }
pub fn c146_3() -> bool { let o: Option<i64> = Some(-4); let got: Option<i64> = o.filter(|x| *x > 0); let exp: Option<i64> = None; got == exp }
pub fn c147_0() -> bool { let o: Option<i64> = None; let got: Option<i64> = o.and_then(|x| if x == 0 { None } else { Some(x * 2) }); let exp: Option<i64> = None; got == exp }
pub fn c147_1() -> bool { let o: Option<i64> = Some(0); let got: Option<i64> = o.and_then(|x| if x == 0 { None } else { Some(x * 2) }); let exp: Option<i64> = None; got == exp }
pub fn c147_2() -> bool { let o: Option<i64> = Some(3); let got: Option<i64> = o.and_then(|x| if x == 0 { None } else { Some(x * 2) }); let exp: Option<i64> = Some(6); got == exp }
pub fn c147_3() -> bool { let o: Option<i64> = Some(-4); let got: Option<i64> = o.and_then(|x| if x == 0 { None } else { Some(x * 2) }); let exp: Option<i64> = Some(-8); got == exp }
pub fn c148_0() -> bool { let o: Option<i64> = None; let got: Option<i64> = o.or(Some(9)); let exp: Option<i64> = Some(9); got == exp }
pub fn c148_1() -> bool { let o: Option<i64> = Some(0); let got: Option<i64> = o.or(Some(9)); let exp: Option<i64> = Some(0); got == exp }
pub fn c148_2() -> bool { let o: Option<i64> = Some(3); let got: Option<i64> = o.or(Some(9)); let exp: Option<i64> = Some(3); got == exp }
pub fn c148_3() -> bool { let o: Option<i64> = Some(-4); let got: Option<i64> = o.or(Some(9)); let exp: Option<i64> = Some(-4); got == exp }
pub fn c149_0() -> bool { let o: Option<i64> = None; let got: Option<i64> = o.or_else(|| Some(8)); let exp: Option<i64> = Some(8); got == exp }
pub fn c149_1() -> bool { let o: Option<i64> = Some(0); let got: Option<i64> = o.or_else(|| Some(8)); let exp: Option<i64> = Some(0); got == exp }
pub fn c149_2() -> bool { let o: Option<i64> = Some(3); let got: Option<i64> = o.or_else(|| Some(8)); let exp: Option<i64> = Some(3); got == exp }
pub fn c149_3() -> bool { let o: Option<i64> = Some(-4); let got: Option<i64> = o.or_else(|| Some(8)); let exp: Option<i64> = Some(-4); got == exp }
pub fn c150_0() -> bool { let o: Option<i64> = None; let got: Option<i64> = o.xor(Some(1)); let exp: Option<i64> = Some(1); got == exp }
pub fn c150_1() -> bool { let o: Option<i64> = Some(0); let got: Option<i64> = o.xor(Some(1)); let exp: Option<i64> = None; got == exp }
pub fn c150_2() -> bool { let o: Option<i64> = Some(3); let got: Option<i64> = o.xor(Some(1)); let exp: Option<i64> = None; got == exp }
pub fn c150_3() -> bool { let o: Option<i64> = Some(-4); let got: Option<i64> = o.xor(Some(1)); let exp: Option<i64> = None; got == exp }
pub fn c151_0() -> bool { let o: Option<i64> = None; let got: Option<i64> = o.as_ref().map(|x| *x); let exp: Option<i64> = None; got == exp }
pub fn c151_1() -> bool { let o: Option<i64> = Some(0); let got: Option<i64> = o.as_ref().map(|x| *x); let exp: Option<i64> = Some(0); got == exp }
pub fn c151_2() -> bool { let o: Option<i64> = Some(3); let got: Option<i64> = o.as_ref().map(|x| *x); let exp: Option<i64> = Some(3); got == exp }
pub fn c151_3() -> bool { let o: Option<i64> = Some(-4); let got: Option<i64> = o.as_ref().map(|x| *x); let exp: Option<i64> = Some(-4); got == exp }
pub fn c152_0() -> bool { let o: Option<i64> = None; let got: Option<i64> = o.iter().next().copied(); let exp: Option<i64> = None; got == exp }
pub fn c152_1() -> bool { let o: Option<i64> = Some(0); let got: Option<i64> = o.iter().next().copied(); let exp: Option<i64> = Some(0); got == exp }
pub fn c152_2() -> bool { let o: Option<i64> = Some(3); let got: Option<i64> = o.iter().next().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c152_3() -> bool { let o: Option<i64> = Some(-4); let got: Option<i64> = o.iter().next().copied(); let exp: Option<i64> = Some(-4); got == exp }
pub fn c153_0() -> bool { let o: Option<i64> = None; let got: Option<i64> = { let mut p = o; p.take() }; let exp: Option<i64> = None; got == exp }
pub fn c153_1() -> bool { let o: Option<i64> = Some(0); let got: Option<i64> = { let mut p = o; p.take() }; let exp: Option<i64> = Some(0); got == exp }
pub fn c153_2() -> bool { let o: Option<i64> = Some(3); let got: Option<i64> = { let mut p = o; p.take() }; let exp: Option<i64> = Some(3); got == exp }
pub fn c153_3() -> bool { let o: Option<i64> = Some(-4); let got: Option<i64> = { let mut p = o; p.take() }; let exp: Option<i64> = Some(-4); got == exp }
pub fn c154_0() -> bool { let o: Option<i64> = None; let got: Option<i64> = { let mut p = o; p.replace(4) }; let exp: Option<i64> = None; got == exp }
pub fn c154_1() -> bool { let o: Option<i64> = Some(0); let got: Option<i64> = { let mut p = o; p.replace(4) }; let exp: Option<i64> = Some(0); got == exp }
pub fn c154_2() -> bool { let o: Option<i64> = Some(3); let got: Option<i64> = { let mut p = o; p.replace(4) }; let exp: Option<i64> = Some(3); got == exp }
pub fn c154_3() -> bool { let o: Option<i64> = Some(-4); let got: Option<i64> = { let mut p = o; p.replace(4) }; let exp: Option<i64> = Some(-4); got == exp }
pub fn c155_0() -> bool { let o: Option<i64> = None; let got: Option<i64> = (|| -> Option<i64> { Some(o?) })(); let exp: Option<i64> = None; got == exp }
pub fn c155_1() -> bool { let o: Option<i64> = Some(0); let got: Option<i64> = (|| -> Option<i64> { Some(o?) })(); let exp: Option<i64> = Some(0); got == exp }
pub fn c155_2() -> bool { let o: Option<i64> = Some(3); let got: Option<i64> = (|| -> Option<i64> { Some(o?) })(); let exp: Option<i64> = Some(3); got == exp }
pub fn c155_3() -> bool { let o: Option<i64> = Some(-4); let got: Option<i64> = (|| -> Option<i64> { Some(o?) })(); let exp: Option<i64> = Some(-4); got == exp }
pub fn c156_0() -> bool { let o: Option<i64> = None; let got: Option<i64> = o.zip(Some(1)).map(|(a, b)| a + b); let exp: Option<i64> = None; got == exp }
pub fn c156_1() -> bool { let o: Option<i64> = Some(0); let got: Option<i64> = o.zip(Some(1)).map(|(a, b)| a + b); let exp: Option<i64> = Some(1); got == exp }
pub fn c156_2() -> bool { let o: Option<i64> = Some(3); let got: Option<i64> = o.zip(Some(1)).map(|(a, b)| a + b); let exp: Option<i64> = Some(4); got == exp }
pub fn c156_3() -> bool { let o: Option<i64> = Some(-4); let got: Option<i64> = o.zip(Some(1)).map(|(a, b)| a + b); let exp: Option<i64> = Some(-3); got == exp }
pub fn c157_0() -> bool { let o: Option<i64> = None; let got: Option<i64> = o.into_iter().next(); let exp: Option<i64> = None; got == exp }
pub fn c157_1() -> bool { let o: Option<i64> = Some(0); let got: Option<i64> = o.into_iter().next(); let exp: Option<i64> = Some(0); got == exp }
pub fn c157_2() -> bool { let o: Option<i64> = Some(3); let got: Option<i64> = o.into_iter().next(); let exp: Option<i64> = Some(3); got == exp }
pub fn c157_3() -> bool { let o: Option<i64> = Some(-4); let got: Option<i64> = o.into_iter().next(); let exp: Option<i64> = Some(-4); got == exp }
pub fn c158_0() -> bool { let o: Option<i64> = None; let got: i64 = o.unwrap_or(7); let exp: i64 = 7; got == exp }
pub fn c158_1() -> bool { let o: Option<i64> = Some(0); let got: i64 = o.unwrap_or(7); let exp: i64 = 0; got == exp }
pub fn c158_2() -> bool { let o: Option<i64> = Some(3); let got: i64 = o.unwrap_or(7); let exp: i64 = 3; got == exp }
pub fn c158_3() -> bool { let o: Option<i64> = Some(-4); let got: i64 = o.unwrap_or(7); let exp: i64 = -4; got == exp }
pub fn c159_0() -> bool { let o: Option<i64> = None; let got: i64 = o.unwrap_or_default(); let exp: i64 = 0; got == exp }
pub fn c159_1() -> bool { let o: Option<i64> = Some(0); let got: i64 = o.unwrap_or_default(); let exp: i64 = 0; got == exp }
pub fn c159_2() -> bool { let o: Option<i64> = Some(3); let got: i64 = o.unwrap_or_default(); let exp: i64 = 3; got == exp }
pub fn c159_3() -> bool { let o: Option<i64> = Some(-4); let got: i64 = o.unwrap_or_default(); let exp: i64 = -4; got == exp }
pub fn c160_0() -> bool { let o: Option<i64> = None; let got: i64 = o.unwrap_or_else(|| -1); let exp: i64 = -1; got == exp }
pub fn c160_1() -> bool { let o: Option<i64> = Some(0); let got: i64 = o.unwrap_or_else(|| -1); let exp: i64 = 0; got == exp }
pub fn c160_2() -> bool { let o: Option<i64> = Some(3); let got: i64 = o.unwrap_or_else(|| -1); let exp: i64 = 3; got == exp }
pub fn c160_3() -> bool { let o: Option<i64> = Some(-4); let got: i64 = o.unwrap_or_else(|| -1); let exp: i64 = -4; got == exp }
pub fn c161_0() -> bool { let o: Option<i64> = None; let got: i64 = o.map_or(5, |x| x - 1); let exp: i64 = 5; got == exp }
pub fn c161_1() -> bool { let o: Option<i64> = Some(0); let got: i64 = o.map_or(5, |x| x - 1); let exp: i64 = -1; got == exp }
pub fn c161_2() -> bool { let o: Option<i64> = Some(3); let got: i64 = o.map_or(5, |x| x - 1); let exp: i64 = 2; got == exp }
pub fn c161_3() -> bool { let o: Option<i64> = Some(-4); let got: i64 = o.map_or(5, |x| x - 1); let exp: i64 = -5; got == exp }
pub fn c162_0() -> bool { let o: Option<i64> = None; let got: i64 = o.map_or_else(|| 6, |x| x + 6); let exp: i64 = 6; got == exp }
pub fn c162_1() -> bool { let o: Option<i64> = Some(0); let got: i64 = o.map_or_else(|| 6, |x| x + 6); let exp: i64 = 6; got == exp }
pub fn c162_2() -> bool { let o: Option<i64> = Some(3); let got: i64 = o.map_or_else(|| 6, |x| x + 6); let exp: i64 = 9; got == exp }
pub fn c162_3() -> bool { let o: Option<i64> = Some(-4); let got: i64 = o.map_or_else(|| 6, |x| x + 6); let exp: i64 = 2; got == exp }
pub fn c163_0() -> bool { let o: Option<i64> = None; let got: i64 = match o { Some(x) if x > 0 => 1, Some(_) => 2, None => 3 }; let exp: i64 = 3; got == exp }
pub fn c163_1() -> bool { let o: Option<i64> = Some(0); let got: i64 = match o { Some(x) if x > 0 => 1, Some(_) => 2, None => 3 }; let exp: i64 = 2; got == exp }
pub fn c163_2() -> bool { let o: Option<i64> = Some(3); let got: i64 = match o { Some(x) if x > 0 => 1, Some(_) => 2, None => 3 }; let exp: i64 = 1; got == exp }
pub fn c163_3() -> bool { let o: Option<i64> = Some(-4); let got: i64 = match o { Some(x) if x > 0 => 1, Some(_) => 2, None => 3 }; let exp: i64 = 2; got == exp }
pub fn c164_0() -> bool { let o: Option<i64> = None; let got: i64 = if let Some(x) = o { x } else { 100 }; let exp: i64 = 100; got == exp }
pub fn c164_1() -> bool { let o: Option<i64> = Some(0); let got: i64 = if let Some(x) = o { x } else { 100 }; let exp: i64 = 0; got == exp }
pub fn c164_2() -> bool { let o: Option<i64> = Some(3); let got: i64 = if let Some(x) = o { x } else { 100 }; let exp: i64 = 3; got == exp }
pub fn c164_3() -> bool { let o: Option<i64> = Some(-4); let got: i64 = if let Some(x) = o { x } else { 100 }; let exp: i64 = -4; got == exp }
pub fn c165_0() -> bool { let o: Option<i64> = None; let got: i64 = (|| { { let Some(x) = o else { return 1000 }; x } })(); let exp: i64 = 1000; got == exp }
pub fn c165_1() -> bool { let o: Option<i64> = Some(0); let got: i64 = (|| { { let Some(x) = o else { return 1000 }; x } })(); let exp: i64 = 0; got == exp }
pub fn c165_2() -> bool { let o: Option<i64> = Some(3); let got: i64 = (|| { { let Some(x) = o else { return 1000 }; x } })(); let exp: i64 = 3; got == exp }
pub fn c165_3() -> bool { let o: Option<i64> = Some(-4); let got: i64 = (|| { { let Some(x) = o else { return 1000 }; x } })(); let exp: i64 = -4; got == exp }
pub fn c166_0() -> bool { let o: Option<i64> = None; let got: i64 = o.iter().sum::<i64>(); let exp: i64 = 0; got == exp }
pub fn c166_1() -> bool { let o: Option<i64> = Some(0); let got: i64 = o.iter().sum::<i64>(); let exp: i64 = 0; got == exp }
pub fn c166_2() -> bool { let o: Option<i64> = Some(3); let got: i64 = o.iter().sum::<i64>(); let exp: i64 = 3; got == exp }
pub fn c166_3() -> bool { let o: Option<i64> = Some(-4); let got: i64 = o.iter().sum::<i64>(); let exp: i64 = -4; got == exp }
pub fn c167_0() -> bool { let o: Option<i64> = None; let got: bool = o.is_some(); let exp: bool = false; got == exp }
pub fn c167_1() -> bool { let o: Option<i64> = Some(0); let got: bool = o.is_some(); let exp: bool = true; got == exp }
pub fn c167_2() -> bool { let o: Option<i64> = Some(3); let got: bool = o.is_some(); let exp: bool = true; got == exp }
pub fn c167_3() -> bool { let o: Option<i64> = Some(-4); let got: bool = o.is_some(); let exp: bool = true; got == exp }
pub fn c168_0() -> bool { let o: Option<i64> = None; let got: bool = o.is_none(); let exp: bool = true; got == exp }
pub fn c168_1() -> bool { let o: Option<i64> = Some(0); let got: bool = o.is_none(); let exp: bool = false; got == exp }
pub fn c168_2() -> bool { let o: Option<i64> = Some(3); let got: bool = o.is_none(); let exp: bool = false; got == exp }
pub fn c168_3() -> bool { let o: Option<i64> = Some(-4); let got: bool = o.is_none(); let exp: bool = false; got == exp }
pub fn c169_0() -> bool { let o: Option<i64> = None; let got: bool = o.is_some_and(|x| x > 0); let exp: bool = false; got == exp }
pub fn c169_1() -> bool { let o: Option<i64> = Some(0); let got: bool = o.is_some_and(|x| x > 0); let exp: bool = false; got == exp }
pub fn c169_2() -> bool { let o: Option<i64> = Some(3); let got: bool = o.is_some_and(|x| x > 0); let exp: bool = true; got == exp }
pub fn c169_3() -> bool { let o: Option<i64> = Some(-4); let got: bool = o.is_some_and(|x| x > 0); let exp: bool = false; got == exp }
pub fn c170_0() -> bool { let o: Option<i64> = None; let got: bool = o == Some(3); let exp: bool = false; got == exp }
pub fn c170_1() -> bool { let o: Option<i64> = Some(0); let got: bool = o == Some(3); let exp: bool = false; got == exp }
pub fn c170_2() -> bool { let o: Option<i64> = Some(3); let got: bool = o == Some(3); let exp: bool = true; got == exp }
pub fn c170_3() -> bool { let o: Option<i64> = Some(-4); let got: bool = o == Some(3); let exp: bool = false; got == exp }
pub fn c171_0() -> bool { let o: Option<i64> = None; let got: bool = o != None; let exp: bool = false; got == exp }
pub fn c171_1() -> bool { let o: Option<i64> = Some(0); let got: bool = o != None; let exp: bool = true; got == exp }
pub fn c171_2() -> bool { let o: Option<i64> = Some(3); let got: bool = o != None; let exp: bool = true; got == exp }
pub fn c171_3() -> bool { let o: Option<i64> = Some(-4); let got: bool = o != None; let exp: bool = true; got == exp }
pub fn c172_0() -> bool { let o: Option<i64> = None; let got: bool = o > Some(0); let exp: bool = false; got == exp }
pub fn c172_1() -> bool { let o: Option<i64> = Some(0); let got: bool = o > Some(0); let exp: bool = false; got == exp }
pub fn c172_2() -> bool { let o: Option<i64> = Some(3); let got: bool = o > Some(0); let exp: bool = true; got == exp }
pub fn c172_3() -> bool { let o: Option<i64> = Some(-4); let got: bool = o > Some(0); let exp: bool = false; got == exp }
pub fn c173_0() -> bool { let o: Option<i64> = None; let got: bool = o.ok_or(1).is_err(); let exp: bool = true; got == exp }
pub fn c173_1() -> bool { let o: Option<i64> = Some(0); let got: bool = o.ok_or(1).is_err(); let exp: bool = false; got == exp }
pub fn c173_2() -> bool { let o: Option<i64> = Some(3); let got: bool = o.ok_or(1).is_err(); let exp: bool = false; got == exp }
pub fn c173_3() -> bool { let o: Option<i64> = Some(-4); let got: bool = o.ok_or(1).is_err(); let exp: bool = false; got == exp }
pub fn c174_0() -> bool { let o: Option<i64> = None; let got: bool = o.iter().count() == 0; let exp: bool = true; got == exp }
pub fn c174_1() -> bool { let o: Option<i64> = Some(0); let got: bool = o.iter().count() == 0; let exp: bool = false; got == exp }
pub fn c174_2() -> bool { let o: Option<i64> = Some(3); let got: bool = o.iter().count() == 0; let exp: bool = false; got == exp }
pub fn c174_3() -> bool { let o: Option<i64> = Some(-4); let got: bool = o.iter().count() == 0; let exp: bool = false; got == exp }
pub fn c175_0() -> bool { let o: Option<i64> = None; let got: bool = matches!(o, Some(x) if x != 3); let exp: bool = false; got == exp }
pub fn c175_1() -> bool { let o: Option<i64> = Some(0); let got: bool = matches!(o, Some(x) if x != 3); let exp: bool = true; got == exp }
pub fn c175_2() -> bool { let o: Option<i64> = Some(3); let got: bool = matches!(o, Some(x) if x != 3); let exp: bool = false; got == exp }
pub fn c175_3() -> bool { let o: Option<i64> = Some(-4); let got: bool = matches!(o, Some(x) if x != 3); let exp: bool = true; got == exp }
pub fn c176_0() -> bool { let r: Result<i64, String> = Ok(0); let got: Option<i64> = r.clone().ok(); let exp: Option<i64> = Some(0); got == exp }
pub fn c176_1() -> bool { let r: Result<i64, String> = Ok(3); let got: Option<i64> = r.clone().ok(); let exp: Option<i64> = Some(3); got == exp }
pub fn c176_2() -> bool { let r: Result<i64, String> = Err("bad".to_string()); let got: Option<i64> = r.clone().ok(); let exp: Option<i64> = None; got == exp }
pub fn c177_0() -> bool { let r: Result<i64, String> = Ok(0); let got: Option<i64> = r.clone().map(|x| x + 1).ok(); let exp: Option<i64> = Some(1); got == exp }
pub fn c177_1() -> bool { let r: Result<i64, String> = Ok(3); let got: Option<i64> = r.clone().map(|x| x + 1).ok(); let exp: Option<i64> = Some(4); got == exp }
pub fn c177_2() -> bool { let r: Result<i64, String> = Err("bad".to_string()); let got: Option<i64> = r.clone().map(|x| x + 1).ok(); let exp: Option<i64> = None; got == exp }
pub fn c178_0() -> bool { let r: Result<i64, String> = Ok(0); let got: Option<i64> = r.clone().and_then(|x| if x > 0 { Ok(x) } else { Err(String::new()) }).ok(); let exp: Option<i64> = None; got == exp }
pub fn c178_1() -> bool { let r: Result<i64, String> = Ok(3); let got: Option<i64> = r.clone().and_then(|x| if x > 0 { Ok(x) } else { Err(String::new()) }).ok(); let exp: Option<i64> = Some(3); got == exp }
pub fn c178_2() -> bool { let r: Result<i64, String> = Err("bad".to_string()); let got: Option<i64> = r.clone().and_then(|x| if x > 0 { Ok(x) } else { Err(String::new()) }).ok(); let exp: Option<i64> = None; got == exp }
pub fn c179_0() -> bool { let r: Result<i64, String> = Ok(0); let got: Option<i64> = r.as_ref().ok().copied(); let exp: Option<i64> = Some(0); got == exp }
pub fn c179_1() -> bool { let r: Result<i64, String> = Ok(3); let got: Option<i64> = r.as_ref().ok().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c179_2() -> bool { let r: Result<i64, String> = Err("bad".to_string()); let got: Option<i64> = r.as_ref().ok().copied(); let exp: Option<i64> = None; got == exp }
pub fn c180_0() -> bool { let r: Result<i64, String> = Ok(0); let got: Option<i64> = (|| Some(r.clone().ok()?))(); let exp: Option<i64> = Some(0); got == exp }
pub fn c180_1() -> bool { let r: Result<i64, String> = Ok(3); let got: Option<i64> = (|| Some(r.clone().ok()?))(); let exp: Option<i64> = Some(3); got == exp }
pub fn c180_2() -> bool { let r: Result<i64, String> = Err("bad".to_string()); let got: Option<i64> = (|| Some(r.clone().ok()?))(); let exp: Option<i64> = None; got == exp }
pub fn c181_0() -> bool { let r: Result<i64, String> = Ok(0); let got: i64 = r.clone().unwrap_or(7); let exp: i64 = 0; got == exp }
pub fn c181_1() -> bool { let r: Result<i64, String> = Ok(3); let got: i64 = r.clone().unwrap_or(7); let exp: i64 = 3; got == exp }
pub fn c181_2() -> bool { let r: Result<i64, String> = Err("bad".to_string()); let got: i64 = r.clone().unwrap_or(7); let exp: i64 = 7; got == exp }
pub fn c182_0() -> bool { let r: Result<i64, String> = Ok(0); let got: i64 = r.clone().unwrap_or_default(); let exp: i64 = 0; got == exp }
pub fn c182_1() -> bool { let r: Result<i64, String> = Ok(3); let got: i64 = r.clone().unwrap_or_default(); let exp: i64 = 3; got == exp }
pub fn c182_2() -> bool { let r: Result<i64, String> = Err("bad".to_string()); let got: i64 = r.clone().unwrap_or_default(); let exp: i64 = 0; got == exp }
pub fn c183_0() -> bool { let r: Result<i64, String> = Ok(0); let got: i64 = r.clone().unwrap_or_else(|e| e.len() as i64); let exp: i64 = 0; got == exp }
pub fn c183_1() -> bool { let r: Result<i64, String> = Ok(3); let got: i64 = r.clone().unwrap_or_else(|e| e.len() as i64); let exp: i64 = 3; got == exp }
pub fn c183_2() -> bool { let r: Result<i64, String> = Err("bad".to_string()); let got: i64 = r.clone().unwrap_or_else(|e| e.len() as i64); let exp: i64 = 3; got == exp }
pub fn c184_0() -> bool { let r: Result<i64, String> = Ok(0); let got: i64 = match r { Ok(x) => x, Err(e) => -(e.len() as i64) }; let exp: i64 = 0; got == exp }
pub fn c184_1() -> bool { let r: Result<i64, String> = Ok(3); let got: i64 = match r { Ok(x) => x, Err(e) => -(e.len() as i64) }; let exp: i64 = 3; got == exp }
pub fn c184_2() -> bool { let r: Result<i64, String> = Err("bad".to_string()); let got: i64 = match r { Ok(x) => x, Err(e) => -(e.len() as i64) }; let exp: i64 = -3; got == exp }
pub fn c185_0() -> bool { let r: Result<i64, String> = Ok(0); let got: bool = r.is_ok(); let exp: bool = true; got == exp }
pub fn c185_1() -> bool { let r: Result<i64, String> = Ok(3); let got: bool = r.is_ok(); let exp: bool = true; got == exp }
pub fn c185_2() -> bool { let r: Result<i64, String> = Err("bad".to_string()); let got: bool = r.is_ok(); let exp: bool = false; got == exp }
pub fn c186_0() -> bool { let r: Result<i64, String> = Ok(0); let got: bool = r.is_err(); let exp: bool = false; got == exp }
pub fn c186_1() -> bool { let r: Result<i64, String> = Ok(3); let got: bool = r.is_err(); let exp: bool = false; got == exp }
pub fn c186_2() -> bool { let r: Result<i64, String> = Err("bad".to_string()); let got: bool = r.is_err(); let exp: bool = true; got == exp }
pub fn c187_0() -> bool { let r: Result<i64, String> = Ok(0); let got: bool = r.is_ok_and(|x| x == 3); let exp: bool = false; got == exp }
pub fn c187_1() -> bool { let r: Result<i64, String> = Ok(3); let got: bool = r.is_ok_and(|x| x == 3); let exp: bool = true; got == exp }
pub fn c187_2() -> bool { let r: Result<i64, String> = Err("bad".to_string()); let got: bool = r.is_ok_and(|x| x == 3); let exp: bool = false; got == exp }
pub fn c188_0() -> bool { let r: Result<i64, String> = Ok(0); let got: bool = r.clone().map_err(|e| e.len()) == Err(3); let exp: bool = false; got == exp }
pub fn c188_1() -> bool { let r: Result<i64, String> = Ok(3); let got: bool = r.clone().map_err(|e| e.len()) == Err(3); let exp: bool = false; got == exp }
pub fn c188_2() -> bool { let r: Result<i64, String> = Err("bad".to_string()); let got: bool = r.clone().map_err(|e| e.len()) == Err(3); let exp: bool = true; got == exp }
pub fn c189_0() -> bool { let r: Result<i64, String> = Ok(0); let got: Option<String> = r.err(); let exp: Option<String> = None; got == exp }
pub fn c189_1() -> bool { let r: Result<i64, String> = Ok(3); let got: Option<String> = r.err(); let exp: Option<String> = None; got == exp }
pub fn c189_2() -> bool { let r: Result<i64, String> = Err("bad".to_string()); let got: Option<String> = r.err(); let exp: Option<String> = Some(String::from("\u{62}\u{61}\u{64}")); got == exp }
pub fn c190_0() -> bool { let b: bool = true; let got: Option<i64> = b.then(|| 3); let exp: Option<i64> = Some(3); got == exp }
pub fn s190_0(b: bool) -> bool { if !(b == true) { return true; } let got: Option<i64> = b.then(|| 3); let exp: Option<i64> = Some(3); got == exp }
pub fn c190_1() -> bool { let b: bool = false; let got: Option<i64> = b.then(|| 3); let exp: Option<i64> = None; got == exp }
pub fn s190_1(b: bool) -> bool { if !(b == false) { return true; } let got: Option<i64> = b.then(|| 3); let exp: Option<i64> = None; got == exp }
pub fn c191_0() -> bool { let b: bool = true; let got: Option<i64> = b.then_some(4); let exp: Option<i64> = Some(4); got == exp }
pub fn s191_0(b: bool) -> bool { if !(b == true) { return true; } let got: Option<i64> = b.then_some(4); let exp: Option<i64> = Some(4); got == exp }
pub fn c191_1() -> bool { let b: bool = false; let got: Option<i64> = b.then_some(4); let exp: Option<i64> = None; got == exp }
pub fn s191_1(b: bool) -> bool { if !(b == false) { return true; } let got: Option<i64> = b.then_some(4); let exp: Option<i64> = None; got == exp }
pub fn c192_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<Vec<i64>> = v.iter().map(|x| if *x > 4 { None } else { Some(*x) }).collect::<Option<Vec<_>>>(); let exp: Option<Vec<i64>> = Some(vec![]); got == exp }
pub fn c192_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<Vec<i64>> = v.iter().map(|x| if *x > 4 { None } else { Some(*x) }).collect::<Option<Vec<_>>>(); let exp: Option<Vec<i64>> = Some(vec![3]); got == exp }
pub fn c192_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<Vec<i64>> = v.iter().map(|x| if *x > 4 { None } else { Some(*x) }).collect::<Option<Vec<_>>>(); let exp: Option<Vec<i64>> = Some(vec![1, 2, 3]); got == exp }
pub fn c192_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<Vec<i64>> = v.iter().map(|x| if *x > 4 { None } else { Some(*x) }).collect::<Option<Vec<_>>>(); let exp: Option<Vec<i64>> = None; got == exp }
pub fn c192_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<Vec<i64>> = v.iter().map(|x| if *x > 4 { None } else { Some(*x) }).collect::<Option<Vec<_>>>(); let exp: Option<Vec<i64>> = None; got == exp }
pub fn c193_0() -> bool { let v: Vec<i64> = vec![]; let got: Result<Vec<i64>, String> = v.iter().map(|x| if *x > 4 { Err(format!("{x}")) } else { Ok(*x) }).collect::<Result<Vec<_>, String>>(); let exp: Result<Vec<i64>, String> = Ok(vec![]); got == exp }
pub fn c193_1() -> bool { let v: Vec<i64> = vec![3]; let got: Result<Vec<i64>, String> = v.iter().map(|x| if *x > 4 { Err(format!("{x}")) } else { Ok(*x) }).collect::<Result<Vec<_>, String>>(); let exp: Result<Vec<i64>, String> = Ok(vec![3]); got == exp }
pub fn c193_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Result<Vec<i64>, String> = v.iter().map(|x| if *x > 4 { Err(format!("{x}")) } else { Ok(*x) }).collect::<Result<Vec<_>, String>>(); let exp: Result<Vec<i64>, String> = Ok(vec![1, 2, 3]); got == exp }
pub fn c193_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Result<Vec<i64>, String> = v.iter().map(|x| if *x > 4 { Err(format!("{x}")) } else { Ok(*x) }).collect::<Result<Vec<_>, String>>(); let exp: Result<Vec<i64>, String> = Err(String::from("\u{35}")); got == exp }
pub fn c193_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Result<Vec<i64>, String> = v.iter().map(|x| if *x > 4 { Err(format!("{x}")) } else { Ok(*x) }).collect::<Result<Vec<_>, String>>(); let exp: Result<Vec<i64>, String> = Err(String::from("\u{36}")); got == exp }
pub fn c194_0() -> bool { let v: Vec<i64> = vec![]; let got: usize = v.len(); let exp: usize = 0; got == exp }
pub fn c194_1() -> bool { let v: Vec<i64> = vec![3]; let got: usize = v.len(); let exp: usize = 1; got == exp }
pub fn c194_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: usize = v.len(); let exp: usize = 3; got == exp }
pub fn c194_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: usize = v.len(); let exp: usize = 4; got == exp }
pub fn c194_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: usize = v.len(); let exp: usize = 5; got == exp }
pub fn c195_0() -> bool { let v: Vec<i64> = vec![]; let got: usize = v.iter().count(); let exp: usize = 0; got == exp }
pub fn c195_1() -> bool { let v: Vec<i64> = vec![3]; let got: usize = v.iter().count(); let exp: usize = 1; got == exp }
pub fn c195_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: usize = v.iter().count(); let exp: usize = 3; got == exp }
pub fn c195_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: usize = v.iter().count(); let exp: usize = 4; got == exp }
pub fn c195_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: usize = v.iter().count(); let exp: usize = 5; got == exp }
pub fn c196_0() -> bool { let v: Vec<i64> = vec![]; let got: usize = v.iter().filter(|x| **x > 2).count(); let exp: usize = 0; got == exp }
pub fn c196_1() -> bool { let v: Vec<i64> = vec![3]; let got: usize = v.iter().filter(|x| **x > 2).count(); let exp: usize = 1; got == exp }
pub fn c196_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: usize = v.iter().filter(|x| **x > 2).count(); let exp: usize = 1; got == exp }
pub fn c196_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: usize = v.iter().filter(|x| **x > 2).count(); let exp: usize = 2; got == exp }
pub fn c196_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: usize = v.iter().filter(|x| **x > 2).count(); let exp: usize = 4; got == exp }
pub fn c197_0() -> bool { let v: Vec<i64> = vec![]; let got: usize = v.iter().flat_map(|x| vec![*x; 1]).count(); let exp: usize = 0; got == exp }
pub fn c197_1() -> bool { let v: Vec<i64> = vec![3]; let got: usize = v.iter().flat_map(|x| vec![*x; 1]).count(); let exp: usize = 1; got == exp }
pub fn c197_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: usize = v.iter().flat_map(|x| vec![*x; 1]).count(); let exp: usize = 3; got == exp }
pub fn c197_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: usize = v.iter().flat_map(|x| vec![*x; 1]).count(); let exp: usize = 4; got == exp }
pub fn c197_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: usize = v.iter().flat_map(|x| vec![*x; 1]).count(); let exp: usize = 5; got == exp }
pub fn c198_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = v.first().copied(); let exp: Option<i64> = None; got == exp }
pub fn c198_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = v.first().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c198_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = v.first().copied(); let exp: Option<i64> = Some(1); got == exp }
pub fn c198_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = v.first().copied(); let exp: Option<i64> = Some(5); got == exp }
pub fn c198_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = v.first().copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c199_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = v.last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c199_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = v.last().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c199_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = v.last().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c199_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = v.last().copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c199_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = v.last().copied(); let exp: Option<i64> = Some(10); got == exp }
pub fn c200_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = v.get(1).copied(); let exp: Option<i64> = None; got == exp }
pub fn c200_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = v.get(1).copied(); let exp: Option<i64> = None; got == exp }
pub fn c200_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = v.get(1).copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c200_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = v.get(1).copied(); let exp: Option<i64> = Some(5); got == exp }
pub fn c200_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = v.get(1).copied(); let exp: Option<i64> = Some(4); got == exp }
pub fn c201_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = v.iter().next().copied(); let exp: Option<i64> = None; got == exp }
pub fn c201_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = v.iter().next().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c201_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = v.iter().next().copied(); let exp: Option<i64> = Some(1); got == exp }
pub fn c201_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = v.iter().next().copied(); let exp: Option<i64> = Some(5); got == exp }
pub fn c201_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = v.iter().next().copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c202_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = v.iter().last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c202_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = v.iter().last().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c202_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = v.iter().last().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c202_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = v.iter().last().copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c202_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = v.iter().last().copied(); let exp: Option<i64> = Some(10); got == exp }
pub fn c203_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = v.iter().max().copied(); let exp: Option<i64> = None; got == exp }
pub fn c203_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = v.iter().max().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c203_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = v.iter().max().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c203_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = v.iter().max().copied(); let exp: Option<i64> = Some(5); got == exp }
pub fn c203_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = v.iter().max().copied(); let exp: Option<i64> = Some(10); got == exp }
pub fn c204_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = v.iter().min().copied(); let exp: Option<i64> = None; got == exp }
pub fn c204_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = v.iter().min().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c204_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = v.iter().min().copied(); let exp: Option<i64> = Some(1); got == exp }
pub fn c204_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = v.iter().min().copied(); let exp: Option<i64> = Some(-1); got == exp }
pub fn c204_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = v.iter().min().copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c205_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = v.iter().find(|x| **x > 2).copied(); let exp: Option<i64> = None; got == exp }
pub fn c205_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = v.iter().find(|x| **x > 2).copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c205_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = v.iter().find(|x| **x > 2).copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c205_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = v.iter().find(|x| **x > 2).copied(); let exp: Option<i64> = Some(5); got == exp }
pub fn c205_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = v.iter().find(|x| **x > 2).copied(); let exp: Option<i64> = Some(4); got == exp }
pub fn c206_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = v.iter().rev().find(|x| **x > 2).copied(); let exp: Option<i64> = None; got == exp }
pub fn c206_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = v.iter().rev().find(|x| **x > 2).copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c206_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = v.iter().rev().find(|x| **x > 2).copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c206_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = v.iter().rev().find(|x| **x > 2).copied(); let exp: Option<i64> = Some(5); got == exp }
pub fn c206_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = v.iter().rev().find(|x| **x > 2).copied(); let exp: Option<i64> = Some(10); got == exp }
pub fn c207_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = v.iter().find_map(|x| if *x > 2 { Some(x * 10) } else { None }); let exp: Option<i64> = None; got == exp }
pub fn c207_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = v.iter().find_map(|x| if *x > 2 { Some(x * 10) } else { None }); let exp: Option<i64> = Some(30); got == exp }
pub fn c207_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = v.iter().find_map(|x| if *x > 2 { Some(x * 10) } else { None }); let exp: Option<i64> = Some(30); got == exp }
pub fn c207_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = v.iter().find_map(|x| if *x > 2 { Some(x * 10) } else { None }); let exp: Option<i64> = Some(50); got == exp }
pub fn c207_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = v.iter().find_map(|x| if *x > 2 { Some(x * 10) } else { None }); let exp: Option<i64> = Some(40); got == exp }
pub fn c208_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = v.iter().nth(2).copied(); let exp: Option<i64> = None; got == exp }
pub fn c208_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = v.iter().nth(2).copied(); let exp: Option<i64> = None; got == exp }
pub fn c208_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = v.iter().nth(2).copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c208_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = v.iter().nth(2).copied(); let exp: Option<i64> = Some(-1); got == exp }
pub fn c208_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = v.iter().nth(2).copied(); let exp: Option<i64> = Some(6); got == exp }
pub fn c209_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = { let mut w = v.clone(); w.pop() }; let exp: Option<i64> = None; got == exp }
pub fn c209_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = { let mut w = v.clone(); w.pop() }; let exp: Option<i64> = Some(3); got == exp }
pub fn c209_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = { let mut w = v.clone(); w.pop() }; let exp: Option<i64> = Some(3); got == exp }
pub fn c209_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = { let mut w = v.clone(); w.pop() }; let exp: Option<i64> = Some(2); got == exp }
pub fn c209_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = { let mut w = v.clone(); w.pop() }; let exp: Option<i64> = Some(10); got == exp }
pub fn c210_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = v.iter().copied().reduce(|a, b| a + b); let exp: Option<i64> = None; got == exp }
pub fn c210_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = v.iter().copied().reduce(|a, b| a + b); let exp: Option<i64> = Some(3); got == exp }
pub fn c210_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = v.iter().copied().reduce(|a, b| a + b); let exp: Option<i64> = Some(6); got == exp }
pub fn c210_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = v.iter().copied().reduce(|a, b| a + b); let exp: Option<i64> = Some(11); got == exp }
pub fn c210_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = v.iter().copied().reduce(|a, b| a + b); let exp: Option<i64> = Some(30); got == exp }
pub fn c211_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = v.iter().skip(1).next().copied(); let exp: Option<i64> = None; got == exp }
pub fn c211_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = v.iter().skip(1).next().copied(); let exp: Option<i64> = None; got == exp }
pub fn c211_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = v.iter().skip(1).next().copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c211_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = v.iter().skip(1).next().copied(); let exp: Option<i64> = Some(5); got == exp }
pub fn c211_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = v.iter().skip(1).next().copied(); let exp: Option<i64> = Some(4); got == exp }
pub fn c212_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = v.iter().rev().next().copied(); let exp: Option<i64> = None; got == exp }
pub fn c212_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = v.iter().rev().next().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c212_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = v.iter().rev().next().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c212_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = v.iter().rev().next().copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c212_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = v.iter().rev().next().copied(); let exp: Option<i64> = Some(10); got == exp }
pub fn c213_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = v.iter().min_by_key(|x| (**x - 3).abs()).copied(); let exp: Option<i64> = None; got == exp }
pub fn c213_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = v.iter().min_by_key(|x| (**x - 3).abs()).copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c213_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = v.iter().min_by_key(|x| (**x - 3).abs()).copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c213_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = v.iter().min_by_key(|x| (**x - 3).abs()).copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c213_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = v.iter().min_by_key(|x| (**x - 3).abs()).copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c214_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = v.iter().max_by_key(|x| **x % 3).copied(); let exp: Option<i64> = None; got == exp }
pub fn c214_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = v.iter().max_by_key(|x| **x % 3).copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c214_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = v.iter().max_by_key(|x| **x % 3).copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c214_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = v.iter().max_by_key(|x| **x % 3).copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c214_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = v.iter().max_by_key(|x| **x % 3).copied(); let exp: Option<i64> = Some(8); got == exp }
pub fn c215_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = v.split_first().map(|(a, _)| *a); let exp: Option<i64> = None; got == exp }
pub fn c215_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = v.split_first().map(|(a, _)| *a); let exp: Option<i64> = Some(3); got == exp }
pub fn c215_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = v.split_first().map(|(a, _)| *a); let exp: Option<i64> = Some(1); got == exp }
pub fn c215_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = v.split_first().map(|(a, _)| *a); let exp: Option<i64> = Some(5); got == exp }
pub fn c215_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = v.split_first().map(|(a, _)| *a); let exp: Option<i64> = Some(2); got == exp }
pub fn c216_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = { let mut r = None; for x in &v { if *x > 2 { r = Some(*x); break; } } r }; let exp: Option<i64> = None; got == exp }
pub fn c216_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = { let mut r = None; for x in &v { if *x > 2 { r = Some(*x); break; } } r }; let exp: Option<i64> = Some(3); got == exp }
pub fn c216_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = { let mut r = None; for x in &v { if *x > 2 { r = Some(*x); break; } } r }; let exp: Option<i64> = Some(3); got == exp }
pub fn c216_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = { let mut r = None; for x in &v { if *x > 2 { r = Some(*x); break; } } r }; let exp: Option<i64> = Some(5); got == exp }
pub fn c216_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = { let mut r = None; for x in &v { if *x > 2 { r = Some(*x); break; } } r }; let exp: Option<i64> = Some(4); got == exp }
pub fn c217_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = { let mut r = None; for x in &v { if *x > 2 { r = Some(*x); } } r }; let exp: Option<i64> = None; got == exp }
pub fn c217_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = { let mut r = None; for x in &v { if *x > 2 { r = Some(*x); } } r }; let exp: Option<i64> = Some(3); got == exp }
pub fn c217_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = { let mut r = None; for x in &v { if *x > 2 { r = Some(*x); } } r }; let exp: Option<i64> = Some(3); got == exp }
pub fn c217_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = { let mut r = None; for x in &v { if *x > 2 { r = Some(*x); } } r }; let exp: Option<i64> = Some(5); got == exp }
pub fn c217_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = { let mut r = None; for x in &v { if *x > 2 { r = Some(*x); } } r }; let exp: Option<i64> = Some(10); got == exp }
pub fn c218_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<usize> = v.iter().position(|x| *x == 2); let exp: Option<usize> = None; got == exp }
pub fn c218_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<usize> = v.iter().position(|x| *x == 2); let exp: Option<usize> = None; got == exp }
pub fn c218_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<usize> = v.iter().position(|x| *x == 2); let exp: Option<usize> = Some(1); got == exp }
pub fn c218_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<usize> = v.iter().position(|x| *x == 2); let exp: Option<usize> = Some(3); got == exp }
pub fn c218_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<usize> = v.iter().position(|x| *x == 2); let exp: Option<usize> = Some(0); got == exp }
pub fn c219_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<usize> = v.iter().rposition(|x| *x == 5); let exp: Option<usize> = None; got == exp }
pub fn c219_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<usize> = v.iter().rposition(|x| *x == 5); let exp: Option<usize> = None; got == exp }
pub fn c219_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<usize> = v.iter().rposition(|x| *x == 5); let exp: Option<usize> = None; got == exp }
pub fn c219_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<usize> = v.iter().rposition(|x| *x == 5); let exp: Option<usize> = Some(1); got == exp }
pub fn c219_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<usize> = v.iter().rposition(|x| *x == 5); let exp: Option<usize> = None; got == exp }
pub fn c220_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<usize> = v.iter().enumerate().find(|(_, x)| **x < 3).map(|(i, _)| i); let exp: Option<usize> = None; got == exp }
pub fn c220_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<usize> = v.iter().enumerate().find(|(_, x)| **x < 3).map(|(i, _)| i); let exp: Option<usize> = None; got == exp }
pub fn c220_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<usize> = v.iter().enumerate().find(|(_, x)| **x < 3).map(|(i, _)| i); let exp: Option<usize> = Some(0); got == exp }
pub fn c220_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<usize> = v.iter().enumerate().find(|(_, x)| **x < 3).map(|(i, _)| i); let exp: Option<usize> = Some(2); got == exp }
pub fn c220_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<usize> = v.iter().enumerate().find(|(_, x)| **x < 3).map(|(i, _)| i); let exp: Option<usize> = Some(0); got == exp }
pub fn c221_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = v.is_empty(); let exp: bool = true; got == exp }
pub fn c221_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = v.is_empty(); let exp: bool = false; got == exp }
pub fn c221_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = v.is_empty(); let exp: bool = false; got == exp }
pub fn c221_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = v.is_empty(); let exp: bool = false; got == exp }
pub fn c221_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = v.is_empty(); let exp: bool = false; got == exp }
pub fn c222_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = v.contains(&2); let exp: bool = false; got == exp }
pub fn c222_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = v.contains(&2); let exp: bool = false; got == exp }
pub fn c222_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = v.contains(&2); let exp: bool = true; got == exp }
pub fn c222_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = v.contains(&2); let exp: bool = true; got == exp }
pub fn c222_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = v.contains(&2); let exp: bool = true; got == exp }
pub fn c223_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = v.iter().any(|x| *x > 4); let exp: bool = false; got == exp }
pub fn c223_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = v.iter().any(|x| *x > 4); let exp: bool = false; got == exp }
pub fn c223_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = v.iter().any(|x| *x > 4); let exp: bool = false; got == exp }
pub fn c223_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = v.iter().any(|x| *x > 4); let exp: bool = true; got == exp }
pub fn c223_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = v.iter().any(|x| *x > 4); let exp: bool = true; got == exp }
pub fn c224_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = v.iter().all(|x| *x > 0); let exp: bool = true; got == exp }
pub fn c224_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = v.iter().all(|x| *x > 0); let exp: bool = true; got == exp }
pub fn c224_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = v.iter().all(|x| *x > 0); let exp: bool = true; got == exp }
pub fn c224_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = v.iter().all(|x| *x > 0); let exp: bool = false; got == exp }
pub fn c224_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = v.iter().all(|x| *x > 0); let exp: bool = true; got == exp }
pub fn c225_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = v == vec![1, 2, 3]; let exp: bool = false; got == exp }
pub fn c225_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = v == vec![1, 2, 3]; let exp: bool = false; got == exp }
pub fn c225_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = v == vec![1, 2, 3]; let exp: bool = true; got == exp }
pub fn c225_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = v == vec![1, 2, 3]; let exp: bool = false; got == exp }
pub fn c225_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = v == vec![1, 2, 3]; let exp: bool = false; got == exp }
pub fn c226_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = v.iter().eq([3].iter()); let exp: bool = false; got == exp }
pub fn c226_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = v.iter().eq([3].iter()); let exp: bool = true; got == exp }
pub fn c226_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = v.iter().eq([3].iter()); let exp: bool = false; got == exp }
pub fn c226_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = v.iter().eq([3].iter()); let exp: bool = false; got == exp }
pub fn c226_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = v.iter().eq([3].iter()); let exp: bool = false; got == exp }
pub fn c227_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = v.starts_with(&[1]); let exp: bool = false; got == exp }
pub fn c227_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = v.starts_with(&[1]); let exp: bool = false; got == exp }
pub fn c227_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = v.starts_with(&[1]); let exp: bool = true; got == exp }
pub fn c227_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = v.starts_with(&[1]); let exp: bool = false; got == exp }
pub fn c227_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = v.starts_with(&[1]); let exp: bool = false; got == exp }
pub fn c228_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = v.windows(2).any(|w| w[0] == w[1]); let exp: bool = false; got == exp }
pub fn c228_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = v.windows(2).any(|w| w[0] == w[1]); let exp: bool = false; got == exp }
pub fn c228_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = v.windows(2).any(|w| w[0] == w[1]); let exp: bool = false; got == exp }
pub fn c228_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = v.windows(2).any(|w| w[0] == w[1]); let exp: bool = true; got == exp }
pub fn c228_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = v.windows(2).any(|w| w[0] == w[1]); let exp: bool = false; got == exp }
pub fn c229_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut seen = false; for x in v.iter() { seen |= *x == 2; } seen }; let exp: bool = false; got == exp }
pub fn c229_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut seen = false; for x in v.iter() { seen |= *x == 2; } seen }; let exp: bool = false; got == exp }
pub fn c229_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut seen = false; for x in v.iter() { seen |= *x == 2; } seen }; let exp: bool = true; got == exp }
pub fn c229_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut seen = false; for x in v.iter() { seen |= *x == 2; } seen }; let exp: bool = true; got == exp }
pub fn c229_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut seen = false; for x in v.iter() { seen |= *x == 2; } seen }; let exp: bool = true; got == exp }
pub fn c230_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().map(|x| x * 2).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c230_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().map(|x| x * 2).collect(); let exp: Vec<i64> = vec![6]; got == exp }
pub fn c230_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().map(|x| x * 2).collect(); let exp: Vec<i64> = vec![2, 4, 6]; got == exp }
pub fn c230_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().map(|x| x * 2).collect(); let exp: Vec<i64> = vec![10, 10, -2, 4]; got == exp }
pub fn c230_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().map(|x| x * 2).collect(); let exp: Vec<i64> = vec![4, 8, 12, 16, 20]; got == exp }
pub fn c231_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().filter(|x| **x > 2).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c231_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().filter(|x| **x > 2).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c231_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().filter(|x| **x > 2).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c231_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().filter(|x| **x > 2).copied().collect(); let exp: Vec<i64> = vec![5, 5]; got == exp }
pub fn c231_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().filter(|x| **x > 2).copied().collect(); let exp: Vec<i64> = vec![4, 6, 8, 10]; got == exp }
pub fn c232_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().rev().copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c232_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().rev().copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c232_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().rev().copied().collect(); let exp: Vec<i64> = vec![3, 2, 1]; got == exp }
pub fn c232_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().rev().copied().collect(); let exp: Vec<i64> = vec![2, -1, 5, 5]; got == exp }
pub fn c232_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().rev().copied().collect(); let exp: Vec<i64> = vec![10, 8, 6, 4, 2]; got == exp }
pub fn c233_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().skip(1).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c233_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().skip(1).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c233_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().skip(1).copied().collect(); let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c233_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().skip(1).copied().collect(); let exp: Vec<i64> = vec![5, -1, 2]; got == exp }
pub fn c233_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().skip(1).copied().collect(); let exp: Vec<i64> = vec![4, 6, 8, 10]; got == exp }
pub fn c234_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().take(2).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c234_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().take(2).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c234_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().take(2).copied().collect(); let exp: Vec<i64> = vec![1, 2]; got == exp }
pub fn c234_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().take(2).copied().collect(); let exp: Vec<i64> = vec![5, 5]; got == exp }
pub fn c234_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().take(2).copied().collect(); let exp: Vec<i64> = vec![2, 4]; got == exp }
pub fn c235_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().enumerate().map(|(i, x)| i as i64 + x).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c235_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().enumerate().map(|(i, x)| i as i64 + x).collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c235_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().enumerate().map(|(i, x)| i as i64 + x).collect(); let exp: Vec<i64> = vec![1, 3, 5]; got == exp }
pub fn c235_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().enumerate().map(|(i, x)| i as i64 + x).collect(); let exp: Vec<i64> = vec![5, 6, 1, 5]; got == exp }
pub fn c235_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().enumerate().map(|(i, x)| i as i64 + x).collect(); let exp: Vec<i64> = vec![2, 5, 8, 11, 14]; got == exp }
pub fn c236_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().filter_map(|x| if x % 2 == 0 { Some(x / 2) } else { None }).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c236_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().filter_map(|x| if x % 2 == 0 { Some(x / 2) } else { None }).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c236_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().filter_map(|x| if x % 2 == 0 { Some(x / 2) } else { None }).collect(); let exp: Vec<i64> = vec![1]; got == exp }
pub fn c236_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().filter_map(|x| if x % 2 == 0 { Some(x / 2) } else { None }).collect(); let exp: Vec<i64> = vec![1]; got == exp }
pub fn c236_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().filter_map(|x| if x % 2 == 0 { Some(x / 2) } else { None }).collect(); let exp: Vec<i64> = vec![1, 2, 3, 4, 5]; got == exp }
pub fn c237_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().flat_map(|x| vec![*x, -*x]).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c237_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().flat_map(|x| vec![*x, -*x]).collect(); let exp: Vec<i64> = vec![3, -3]; got == exp }
pub fn c237_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().flat_map(|x| vec![*x, -*x]).collect(); let exp: Vec<i64> = vec![1, -1, 2, -2, 3, -3]; got == exp }
pub fn c237_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().flat_map(|x| vec![*x, -*x]).collect(); let exp: Vec<i64> = vec![5, -5, 5, -5, -1, 1, 2, -2]; got == exp }
pub fn c237_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().flat_map(|x| vec![*x, -*x]).collect(); let exp: Vec<i64> = vec![2, -2, 4, -4, 6, -6, 8, -8, 10, -10]; got == exp }
pub fn c238_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().chain([7].iter()).copied().collect(); let exp: Vec<i64> = vec![7]; got == exp }
pub fn c238_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().chain([7].iter()).copied().collect(); let exp: Vec<i64> = vec![3, 7]; got == exp }
pub fn c238_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().chain([7].iter()).copied().collect(); let exp: Vec<i64> = vec![1, 2, 3, 7]; got == exp }
pub fn c238_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().chain([7].iter()).copied().collect(); let exp: Vec<i64> = vec![5, 5, -1, 2, 7]; got == exp }
pub fn c238_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().chain([7].iter()).copied().collect(); let exp: Vec<i64> = vec![2, 4, 6, 8, 10, 7]; got == exp }
pub fn c239_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().copied().chain(std::iter::once(4)).collect(); let exp: Vec<i64> = vec![4]; got == exp }
pub fn c239_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().copied().chain(std::iter::once(4)).collect(); let exp: Vec<i64> = vec![3, 4]; got == exp }
pub fn c239_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().copied().chain(std::iter::once(4)).collect(); let exp: Vec<i64> = vec![1, 2, 3, 4]; got == exp }
pub fn c239_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().copied().chain(std::iter::once(4)).collect(); let exp: Vec<i64> = vec![5, 5, -1, 2, 4]; got == exp }
pub fn c239_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().copied().chain(std::iter::once(4)).collect(); let exp: Vec<i64> = vec![2, 4, 6, 8, 10, 4]; got == exp }
pub fn c240_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().zip(v.iter().skip(1)).map(|(a, b)| b - a).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c240_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().zip(v.iter().skip(1)).map(|(a, b)| b - a).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c240_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().zip(v.iter().skip(1)).map(|(a, b)| b - a).collect(); let exp: Vec<i64> = vec![1, 1]; got == exp }
pub fn c240_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().zip(v.iter().skip(1)).map(|(a, b)| b - a).collect(); let exp: Vec<i64> = vec![0, -6, 3]; got == exp }
pub fn c240_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().zip(v.iter().skip(1)).map(|(a, b)| b - a).collect(); let exp: Vec<i64> = vec![2, 2, 2, 2]; got == exp }
pub fn c241_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.windows(2).map(|w| w[0] + w[1]).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c241_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.windows(2).map(|w| w[0] + w[1]).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c241_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.windows(2).map(|w| w[0] + w[1]).collect(); let exp: Vec<i64> = vec![3, 5]; got == exp }
pub fn c241_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.windows(2).map(|w| w[0] + w[1]).collect(); let exp: Vec<i64> = vec![10, 4, 1]; got == exp }
pub fn c241_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.windows(2).map(|w| w[0] + w[1]).collect(); let exp: Vec<i64> = vec![6, 10, 14, 18]; got == exp }
pub fn c242_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().take_while(|x| **x < 4).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c242_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().take_while(|x| **x < 4).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c242_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().take_while(|x| **x < 4).copied().collect(); let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c242_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().take_while(|x| **x < 4).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c242_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().take_while(|x| **x < 4).copied().collect(); let exp: Vec<i64> = vec![2]; got == exp }
pub fn c243_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().skip_while(|x| **x < 3).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c243_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().skip_while(|x| **x < 3).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c243_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().skip_while(|x| **x < 3).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c243_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().skip_while(|x| **x < 3).copied().collect(); let exp: Vec<i64> = vec![5, 5, -1, 2]; got == exp }
pub fn c243_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().skip_while(|x| **x < 3).copied().collect(); let exp: Vec<i64> = vec![4, 6, 8, 10]; got == exp }
pub fn c244_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().step_by(2).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c244_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().step_by(2).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c244_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().step_by(2).copied().collect(); let exp: Vec<i64> = vec![1, 3]; got == exp }
pub fn c244_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().step_by(2).copied().collect(); let exp: Vec<i64> = vec![5, -1]; got == exp }
pub fn c244_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().step_by(2).copied().collect(); let exp: Vec<i64> = vec![2, 6, 10]; got == exp }
pub fn c245_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().scan(0, |s, x| { *s += x; Some(*s) }).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c245_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().scan(0, |s, x| { *s += x; Some(*s) }).collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c245_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().scan(0, |s, x| { *s += x; Some(*s) }).collect(); let exp: Vec<i64> = vec![1, 3, 6]; got == exp }
pub fn c245_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().scan(0, |s, x| { *s += x; Some(*s) }).collect(); let exp: Vec<i64> = vec![5, 10, 9, 11]; got == exp }
pub fn c245_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().scan(0, |s, x| { *s += x; Some(*s) }).collect(); let exp: Vec<i64> = vec![2, 6, 12, 20, 30]; got == exp }
pub fn c246_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); w.push(9); w }; let exp: Vec<i64> = vec![9]; got == exp }
pub fn c246_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); w.push(9); w }; let exp: Vec<i64> = vec![3, 9]; got == exp }
pub fn c246_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); w.push(9); w }; let exp: Vec<i64> = vec![1, 2, 3, 9]; got == exp }
pub fn c246_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); w.push(9); w }; let exp: Vec<i64> = vec![5, 5, -1, 2, 9]; got == exp }
pub fn c246_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); w.push(9); w }; let exp: Vec<i64> = vec![2, 4, 6, 8, 10, 9]; got == exp }
pub fn c247_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); w.insert(0, 9); w }; let exp: Vec<i64> = vec![9]; got == exp }
pub fn c247_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); w.insert(0, 9); w }; let exp: Vec<i64> = vec![9, 3]; got == exp }
pub fn c247_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); w.insert(0, 9); w }; let exp: Vec<i64> = vec![9, 1, 2, 3]; got == exp }
pub fn c247_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); w.insert(0, 9); w }; let exp: Vec<i64> = vec![9, 5, 5, -1, 2]; got == exp }
pub fn c247_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); w.insert(0, 9); w }; let exp: Vec<i64> = vec![9, 2, 4, 6, 8, 10]; got == exp }
pub fn c248_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); w.extend(vec![1, 2]); w }; let exp: Vec<i64> = vec![1, 2]; got == exp }
pub fn c248_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); w.extend(vec![1, 2]); w }; let exp: Vec<i64> = vec![3, 1, 2]; got == exp }
pub fn c248_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); w.extend(vec![1, 2]); w }; let exp: Vec<i64> = vec![1, 2, 3, 1, 2]; got == exp }
pub fn c248_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); w.extend(vec![1, 2]); w }; let exp: Vec<i64> = vec![5, 5, -1, 2, 1, 2]; got == exp }
pub fn c248_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); w.extend(vec![1, 2]); w }; let exp: Vec<i64> = vec![2, 4, 6, 8, 10, 1, 2]; got == exp }
pub fn c249_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); w.extend_from_slice(&[8]); w }; let exp: Vec<i64> = vec![8]; got == exp }
pub fn c249_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); w.extend_from_slice(&[8]); w }; let exp: Vec<i64> = vec![3, 8]; got == exp }
pub fn c249_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); w.extend_from_slice(&[8]); w }; let exp: Vec<i64> = vec![1, 2, 3, 8]; got == exp }
pub fn c249_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); w.extend_from_slice(&[8]); w }; let exp: Vec<i64> = vec![5, 5, -1, 2, 8]; got == exp }
pub fn c249_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); w.extend_from_slice(&[8]); w }; let exp: Vec<i64> = vec![2, 4, 6, 8, 10, 8]; got == exp }
pub fn c250_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); w.reverse(); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c250_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); w.reverse(); w }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c250_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); w.reverse(); w }; let exp: Vec<i64> = vec![3, 2, 1]; got == exp }
pub fn c250_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); w.reverse(); w }; let exp: Vec<i64> = vec![2, -1, 5, 5]; got == exp }
pub fn c250_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); w.reverse(); w }; let exp: Vec<i64> = vec![10, 8, 6, 4, 2]; got == exp }
pub fn c251_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); w.sort(); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c251_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); w.sort(); w }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c251_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); w.sort(); w }; let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c251_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); w.sort(); w }; let exp: Vec<i64> = vec![-1, 2, 5, 5]; got == exp }
pub fn c251_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); w.sort(); w }; let exp: Vec<i64> = vec![2, 4, 6, 8, 10]; got == exp }
pub fn c252_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); w.dedup(); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c252_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); w.dedup(); w }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c252_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); w.dedup(); w }; let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c252_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); w.dedup(); w }; let exp: Vec<i64> = vec![5, -1, 2]; got == exp }
pub fn c252_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); w.dedup(); w }; let exp: Vec<i64> = vec![2, 4, 6, 8, 10]; got == exp }
pub fn c253_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); w.retain(|x| *x > 1); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c253_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); w.retain(|x| *x > 1); w }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c253_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); w.retain(|x| *x > 1); w }; let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c253_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); w.retain(|x| *x > 1); w }; let exp: Vec<i64> = vec![5, 5, 2]; got == exp }
pub fn c253_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); w.retain(|x| *x > 1); w }; let exp: Vec<i64> = vec![2, 4, 6, 8, 10]; got == exp }
pub fn c254_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(2); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c254_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(2); w }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c254_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(2); w }; let exp: Vec<i64> = vec![1, 2]; got == exp }
pub fn c254_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(2); w }; let exp: Vec<i64> = vec![5, 5]; got == exp }
pub fn c254_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(2); w }; let exp: Vec<i64> = vec![2, 4]; got == exp }
pub fn c255_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); w.clear(); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c255_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); w.clear(); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c255_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); w.clear(); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c255_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); w.clear(); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c255_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); w.clear(); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c256_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); let mut z = vec![1]; w.append(&mut z); w }; let exp: Vec<i64> = vec![1]; got == exp }
pub fn c256_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); let mut z = vec![1]; w.append(&mut z); w }; let exp: Vec<i64> = vec![3, 1]; got == exp }
pub fn c256_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); let mut z = vec![1]; w.append(&mut z); w }; let exp: Vec<i64> = vec![1, 2, 3, 1]; got == exp }
pub fn c256_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); let mut z = vec![1]; w.append(&mut z); w }; let exp: Vec<i64> = vec![5, 5, -1, 2, 1]; got == exp }
pub fn c256_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); let mut z = vec![1]; w.append(&mut z); w }; let exp: Vec<i64> = vec![2, 4, 6, 8, 10, 1]; got == exp }
pub fn c257_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); let p = w.pop(); w.push(p.unwrap_or(77)); w }; let exp: Vec<i64> = vec![77]; got == exp }
pub fn c257_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); let p = w.pop(); w.push(p.unwrap_or(77)); w }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c257_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); let p = w.pop(); w.push(p.unwrap_or(77)); w }; let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c257_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); let p = w.pop(); w.push(p.unwrap_or(77)); w }; let exp: Vec<i64> = vec![5, 5, -1, 2]; got == exp }
pub fn c257_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); let p = w.pop(); w.push(p.unwrap_or(77)); w }; let exp: Vec<i64> = vec![2, 4, 6, 8, 10]; got == exp }
pub fn c258_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); let d: Vec<i64> = w.drain(..).collect(); d }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c258_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); let d: Vec<i64> = w.drain(..).collect(); d }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c258_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); let d: Vec<i64> = w.drain(..).collect(); d }; let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c258_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); let d: Vec<i64> = w.drain(..).collect(); d }; let exp: Vec<i64> = vec![5, 5, -1, 2]; got == exp }
pub fn c258_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); let d: Vec<i64> = w.drain(..).collect(); d }; let exp: Vec<i64> = vec![2, 4, 6, 8, 10]; got == exp }
pub fn c259_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); for x in w.iter_mut() { *x += 1; } w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c259_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); for x in w.iter_mut() { *x += 1; } w }; let exp: Vec<i64> = vec![4]; got == exp }
pub fn c259_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); for x in w.iter_mut() { *x += 1; } w }; let exp: Vec<i64> = vec![2, 3, 4]; got == exp }
pub fn c259_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); for x in w.iter_mut() { *x += 1; } w }; let exp: Vec<i64> = vec![6, 6, 0, 3]; got == exp }
pub fn c259_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); for x in w.iter_mut() { *x += 1; } w }; let exp: Vec<i64> = vec![3, 5, 7, 9, 11]; got == exp }
pub fn c260_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); if let Some(x) = w.first_mut() { *x = 50; } w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c260_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); if let Some(x) = w.first_mut() { *x = 50; } w }; let exp: Vec<i64> = vec![50]; got == exp }
pub fn c260_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); if let Some(x) = w.first_mut() { *x = 50; } w }; let exp: Vec<i64> = vec![50, 2, 3]; got == exp }
pub fn c260_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); if let Some(x) = w.first_mut() { *x = 50; } w }; let exp: Vec<i64> = vec![50, 5, -1, 2]; got == exp }
pub fn c260_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); if let Some(x) = w.first_mut() { *x = 50; } w }; let exp: Vec<i64> = vec![50, 4, 6, 8, 10]; got == exp }
pub fn c261_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); if let Some(x) = w.last_mut() { *x += 50; } w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c261_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); if let Some(x) = w.last_mut() { *x += 50; } w }; let exp: Vec<i64> = vec![53]; got == exp }
pub fn c261_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); if let Some(x) = w.last_mut() { *x += 50; } w }; let exp: Vec<i64> = vec![1, 2, 53]; got == exp }
pub fn c261_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); if let Some(x) = w.last_mut() { *x += 50; } w }; let exp: Vec<i64> = vec![5, 5, -1, 52]; got == exp }
pub fn c261_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); if let Some(x) = w.last_mut() { *x += 50; } w }; let exp: Vec<i64> = vec![2, 4, 6, 8, 60]; got == exp }
pub fn c262_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); if w.len() > 1 { w[1] = 60; } w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c262_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); if w.len() > 1 { w[1] = 60; } w }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c262_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); if w.len() > 1 { w[1] = 60; } w }; let exp: Vec<i64> = vec![1, 60, 3]; got == exp }
pub fn c262_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); if w.len() > 1 { w[1] = 60; } w }; let exp: Vec<i64> = vec![5, 60, -1, 2]; got == exp }
pub fn c262_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); if w.len() > 1 { w[1] = 60; } w }; let exp: Vec<i64> = vec![2, 60, 6, 8, 10]; got == exp }
pub fn c263_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); if w.len() > 1 { w.swap(0, 1); } w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c263_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); if w.len() > 1 { w.swap(0, 1); } w }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c263_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); if w.len() > 1 { w.swap(0, 1); } w }; let exp: Vec<i64> = vec![2, 1, 3]; got == exp }
pub fn c263_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); if w.len() > 1 { w.swap(0, 1); } w }; let exp: Vec<i64> = vec![5, 5, -1, 2]; got == exp }
pub fn c263_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); if w.len() > 1 { w.swap(0, 1); } w }; let exp: Vec<i64> = vec![4, 2, 6, 8, 10]; got == exp }
pub fn c264_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); if w.len() > 1 { w.remove(0); } w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c264_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); if w.len() > 1 { w.remove(0); } w }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c264_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); if w.len() > 1 { w.remove(0); } w }; let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c264_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); if w.len() > 1 { w.remove(0); } w }; let exp: Vec<i64> = vec![5, -1, 2]; got == exp }
pub fn c264_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); if w.len() > 1 { w.remove(0); } w }; let exp: Vec<i64> = vec![4, 6, 8, 10]; got == exp }
pub fn c265_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = Vec::new(); for x in &v { if *x == 3 { continue; } w.push(x + 1); } w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c265_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = Vec::new(); for x in &v { if *x == 3 { continue; } w.push(x + 1); } w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c265_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = Vec::new(); for x in &v { if *x == 3 { continue; } w.push(x + 1); } w }; let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c265_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = Vec::new(); for x in &v { if *x == 3 { continue; } w.push(x + 1); } w }; let exp: Vec<i64> = vec![6, 6, 0, 3]; got == exp }
pub fn c265_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = Vec::new(); for x in &v { if *x == 3 { continue; } w.push(x + 1); } w }; let exp: Vec<i64> = vec![3, 5, 7, 9, 11]; got == exp }
pub fn c266_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = Vec::new(); for x in &v { if *x > 3 { break; } w.push(*x); } w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c266_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = Vec::new(); for x in &v { if *x > 3 { break; } w.push(*x); } w }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c266_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = Vec::new(); for x in &v { if *x > 3 { break; } w.push(*x); } w }; let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c266_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = Vec::new(); for x in &v { if *x > 3 { break; } w.push(*x); } w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c266_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = Vec::new(); for x in &v { if *x > 3 { break; } w.push(*x); } w }; let exp: Vec<i64> = vec![2]; got == exp }
pub fn c267_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = Vec::new(); for (i, x) in v.iter().enumerate() { for y in &v[..i] { w.push(x * y); } } w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c267_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = Vec::new(); for (i, x) in v.iter().enumerate() { for y in &v[..i] { w.push(x * y); } } w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c267_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = Vec::new(); for (i, x) in v.iter().enumerate() { for y in &v[..i] { w.push(x * y); } } w }; let exp: Vec<i64> = vec![2, 3, 6]; got == exp }
pub fn c267_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = Vec::new(); for (i, x) in v.iter().enumerate() { for y in &v[..i] { w.push(x * y); } } w }; let exp: Vec<i64> = vec![25, -5, -5, 10, 10, -2]; got == exp }
pub fn c267_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = Vec::new(); for (i, x) in v.iter().enumerate() { for y in &v[..i] { w.push(x * y); } } w }; let exp: Vec<i64> = vec![8, 12, 24, 16, 32, 48, 20, 40, 60, 80]; got == exp }
pub fn c268_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = Vec::new(); let mut p = 0; for x in &v { w.push(x - p); p = *x; } w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c268_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = Vec::new(); let mut p = 0; for x in &v { w.push(x - p); p = *x; } w }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c268_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = Vec::new(); let mut p = 0; for x in &v { w.push(x - p); p = *x; } w }; let exp: Vec<i64> = vec![1, 1, 1]; got == exp }
pub fn c268_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = Vec::new(); let mut p = 0; for x in &v { w.push(x - p); p = *x; } w }; let exp: Vec<i64> = vec![5, 0, -6, 3]; got == exp }
pub fn c268_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = Vec::new(); let mut p = 0; for x in &v { w.push(x - p); p = *x; } w }; let exp: Vec<i64> = vec![2, 2, 2, 2, 2]; got == exp }
pub fn c269_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = Vec::new(); let mut p = None; for x in &v { if let Some(q) = p { w.push(x - q); } p = Some(*x); } w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c269_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = Vec::new(); let mut p = None; for x in &v { if let Some(q) = p { w.push(x - q); } p = Some(*x); } w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c269_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = Vec::new(); let mut p = None; for x in &v { if let Some(q) = p { w.push(x - q); } p = Some(*x); } w }; let exp: Vec<i64> = vec![1, 1]; got == exp }
pub fn c269_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = Vec::new(); let mut p = None; for x in &v { if let Some(q) = p { w.push(x - q); } p = Some(*x); } w }; let exp: Vec<i64> = vec![0, -6, 3]; got == exp }
pub fn c269_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = Vec::new(); let mut p = None; for x in &v { if let Some(q) = p { w.push(x - q); } p = Some(*x); } w }; let exp: Vec<i64> = vec![2, 2, 2, 2]; got == exp }
pub fn c270_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = vec![]; let mut i = 0; while i < v.len() { w.push(v[i]); i += 2; } w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c270_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = vec![]; let mut i = 0; while i < v.len() { w.push(v[i]); i += 2; } w }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c270_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = vec![]; let mut i = 0; while i < v.len() { w.push(v[i]); i += 2; } w }; let exp: Vec<i64> = vec![1, 3]; got == exp }
pub fn c270_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = vec![]; let mut i = 0; while i < v.len() { w.push(v[i]); i += 2; } w }; let exp: Vec<i64> = vec![5, -1]; got == exp }
pub fn c270_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = vec![]; let mut i = 0; while i < v.len() { w.push(v[i]); i += 2; } w }; let exp: Vec<i64> = vec![2, 6, 10]; got == exp }
pub fn c271_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().fold(vec![], |mut a, x| { a.push(x + 1); a }); let exp: Vec<i64> = vec![]; got == exp }
pub fn c271_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().fold(vec![], |mut a, x| { a.push(x + 1); a }); let exp: Vec<i64> = vec![4]; got == exp }
pub fn c271_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().fold(vec![], |mut a, x| { a.push(x + 1); a }); let exp: Vec<i64> = vec![2, 3, 4]; got == exp }
pub fn c271_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().fold(vec![], |mut a, x| { a.push(x + 1); a }); let exp: Vec<i64> = vec![6, 6, 0, 3]; got == exp }
pub fn c271_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().fold(vec![], |mut a, x| { a.push(x + 1); a }); let exp: Vec<i64> = vec![3, 5, 7, 9, 11]; got == exp }
pub fn c272_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.clone().into_iter().map(|x| x - 1).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c272_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.clone().into_iter().map(|x| x - 1).collect(); let exp: Vec<i64> = vec![2]; got == exp }
pub fn c272_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.clone().into_iter().map(|x| x - 1).collect(); let exp: Vec<i64> = vec![0, 1, 2]; got == exp }
pub fn c272_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.clone().into_iter().map(|x| x - 1).collect(); let exp: Vec<i64> = vec![4, 4, -2, 1]; got == exp }
pub fn c272_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.clone().into_iter().map(|x| x - 1).collect(); let exp: Vec<i64> = vec![1, 3, 5, 7, 9]; got == exp }
pub fn c273_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.to_vec(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c273_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.to_vec(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c273_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.to_vec(); let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c273_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.to_vec(); let exp: Vec<i64> = vec![5, 5, -1, 2]; got == exp }
pub fn c273_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.to_vec(); let exp: Vec<i64> = vec![2, 4, 6, 8, 10]; got == exp }
pub fn c274_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().cloned().inspect(|_| ()).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c274_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().cloned().inspect(|_| ()).collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c274_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().cloned().inspect(|_| ()).collect(); let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c274_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().cloned().inspect(|_| ()).collect(); let exp: Vec<i64> = vec![5, 5, -1, 2]; got == exp }
pub fn c274_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().cloned().inspect(|_| ()).collect(); let exp: Vec<i64> = vec![2, 4, 6, 8, 10]; got == exp }
pub fn c275_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().flat_map(|x| if *x > 2 { Some(*x) } else { None }).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c275_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().flat_map(|x| if *x > 2 { Some(*x) } else { None }).collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c275_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().flat_map(|x| if *x > 2 { Some(*x) } else { None }).collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c275_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().flat_map(|x| if *x > 2 { Some(*x) } else { None }).collect(); let exp: Vec<i64> = vec![5, 5]; got == exp }
pub fn c275_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().flat_map(|x| if *x > 2 { Some(*x) } else { None }).collect(); let exp: Vec<i64> = vec![4, 6, 8, 10]; got == exp }
pub fn c276_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = vec![v.clone(), v.clone()].concat(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c276_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = vec![v.clone(), v.clone()].concat(); let exp: Vec<i64> = vec![3, 3]; got == exp }
pub fn c276_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = vec![v.clone(), v.clone()].concat(); let exp: Vec<i64> = vec![1, 2, 3, 1, 2, 3]; got == exp }
pub fn c276_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = vec![v.clone(), v.clone()].concat(); let exp: Vec<i64> = vec![5, 5, -1, 2, 5, 5, -1, 2]; got == exp }
pub fn c276_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = vec![v.clone(), v.clone()].concat(); let exp: Vec<i64> = vec![2, 4, 6, 8, 10, 2, 4, 6, 8, 10]; got == exp }
pub fn c277_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().map(|x| Some(*x).filter(|y| *y > 2)).flatten().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c277_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().map(|x| Some(*x).filter(|y| *y > 2)).flatten().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c277_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().map(|x| Some(*x).filter(|y| *y > 2)).flatten().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c277_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().map(|x| Some(*x).filter(|y| *y > 2)).flatten().collect(); let exp: Vec<i64> = vec![5, 5]; got == exp }
pub fn c277_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().map(|x| Some(*x).filter(|y| *y > 2)).flatten().collect(); let exp: Vec<i64> = vec![4, 6, 8, 10]; got == exp }
pub fn c278_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().peekable().copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c278_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().peekable().copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c278_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().peekable().copied().collect(); let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c278_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().peekable().copied().collect(); let exp: Vec<i64> = vec![5, 5, -1, 2]; got == exp }
pub fn c278_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().peekable().copied().collect(); let exp: Vec<i64> = vec![2, 4, 6, 8, 10]; got == exp }
pub fn c279_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let (a, b): (Vec<i64>, Vec<i64>) = v.iter().partition(|x| **x > 2); a.into_iter().chain(b).collect() }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c279_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let (a, b): (Vec<i64>, Vec<i64>) = v.iter().partition(|x| **x > 2); a.into_iter().chain(b).collect() }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c279_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let (a, b): (Vec<i64>, Vec<i64>) = v.iter().partition(|x| **x > 2); a.into_iter().chain(b).collect() }; let exp: Vec<i64> = vec![3, 1, 2]; got == exp }
pub fn c279_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let (a, b): (Vec<i64>, Vec<i64>) = v.iter().partition(|x| **x > 2); a.into_iter().chain(b).collect() }; let exp: Vec<i64> = vec![5, 5, -1, 2]; got == exp }
pub fn c279_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let (a, b): (Vec<i64>, Vec<i64>) = v.iter().partition(|x| **x > 2); a.into_iter().chain(b).collect() }; let exp: Vec<i64> = vec![4, 6, 8, 10, 2]; got == exp }
pub fn c280_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().copied().filter(|x| x % 2 == 1).map(|x| x * x).rev().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c280_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().copied().filter(|x| x % 2 == 1).map(|x| x * x).rev().collect(); let exp: Vec<i64> = vec![9]; got == exp }
pub fn c280_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().copied().filter(|x| x % 2 == 1).map(|x| x * x).rev().collect(); let exp: Vec<i64> = vec![9, 1]; got == exp }
pub fn c280_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().copied().filter(|x| x % 2 == 1).map(|x| x * x).rev().collect(); let exp: Vec<i64> = vec![25, 25]; got == exp }
pub fn c280_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().copied().filter(|x| x % 2 == 1).map(|x| x * x).rev().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c281_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.chunks(2).map(|c| c.len() as i64).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c281_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.chunks(2).map(|c| c.len() as i64).collect(); let exp: Vec<i64> = vec![1]; got == exp }
pub fn c281_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.chunks(2).map(|c| c.len() as i64).collect(); let exp: Vec<i64> = vec![2, 1]; got == exp }
pub fn c281_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.chunks(2).map(|c| c.len() as i64).collect(); let exp: Vec<i64> = vec![2, 2]; got == exp }
pub fn c281_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.chunks(2).map(|c| c.len() as i64).collect(); let exp: Vec<i64> = vec![2, 2, 1]; got == exp }
pub fn c282_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = v.iter().sum(); let exp: i64 = 0; got == exp }
pub fn c282_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = v.iter().sum(); let exp: i64 = 3; got == exp }
pub fn c282_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = v.iter().sum(); let exp: i64 = 6; got == exp }
pub fn c282_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = v.iter().sum(); let exp: i64 = 11; got == exp }
pub fn c282_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = v.iter().sum(); let exp: i64 = 30; got == exp }
pub fn c283_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = v.iter().fold(0, |a, x| a * 2 + x); let exp: i64 = 0; got == exp }
pub fn c283_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = v.iter().fold(0, |a, x| a * 2 + x); let exp: i64 = 3; got == exp }
pub fn c283_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = v.iter().fold(0, |a, x| a * 2 + x); let exp: i64 = 11; got == exp }
pub fn c283_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = v.iter().fold(0, |a, x| a * 2 + x); let exp: i64 = 60; got == exp }
pub fn c283_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = v.iter().fold(0, |a, x| a * 2 + x); let exp: i64 = 114; got == exp }
pub fn c284_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = v.iter().product(); let exp: i64 = 1; got == exp }
pub fn c284_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = v.iter().product(); let exp: i64 = 3; got == exp }
pub fn c284_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = v.iter().product(); let exp: i64 = 6; got == exp }
pub fn c284_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = v.iter().product(); let exp: i64 = -50; got == exp }
pub fn c284_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = v.iter().product(); let exp: i64 = 3840; got == exp }
pub fn c285_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut s = 0; for x in &v { s += x; } s }; let exp: i64 = 0; got == exp }
pub fn c285_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut s = 0; for x in &v { s += x; } s }; let exp: i64 = 3; got == exp }
pub fn c285_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut s = 0; for x in &v { s += x; } s }; let exp: i64 = 6; got == exp }
pub fn c285_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut s = 0; for x in &v { s += x; } s }; let exp: i64 = 11; got == exp }
pub fn c285_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut s = 0; for x in &v { s += x; } s }; let exp: i64 = 30; got == exp }
pub fn c286_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut s = 0; for (i, x) in v.iter().enumerate() { s += x * i as i64; } s }; let exp: i64 = 0; got == exp }
pub fn c286_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut s = 0; for (i, x) in v.iter().enumerate() { s += x * i as i64; } s }; let exp: i64 = 0; got == exp }
pub fn c286_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut s = 0; for (i, x) in v.iter().enumerate() { s += x * i as i64; } s }; let exp: i64 = 8; got == exp }
pub fn c286_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut s = 0; for (i, x) in v.iter().enumerate() { s += x * i as i64; } s }; let exp: i64 = 9; got == exp }
pub fn c286_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut s = 0; for (i, x) in v.iter().enumerate() { s += x * i as i64; } s }; let exp: i64 = 80; got == exp }
pub fn c287_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut s = 0; v.iter().for_each(|x| s += x); s }; let exp: i64 = 0; got == exp }
pub fn c287_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut s = 0; v.iter().for_each(|x| s += x); s }; let exp: i64 = 3; got == exp }
pub fn c287_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut s = 0; v.iter().for_each(|x| s += x); s }; let exp: i64 = 6; got == exp }
pub fn c287_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut s = 0; v.iter().for_each(|x| s += x); s }; let exp: i64 = 11; got == exp }
pub fn c287_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut s = 0; v.iter().for_each(|x| s += x); s }; let exp: i64 = 30; got == exp }
pub fn c288_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = v.iter().map(|x| x.abs()).max().unwrap_or(0); let exp: i64 = 0; got == exp }
pub fn c288_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = v.iter().map(|x| x.abs()).max().unwrap_or(0); let exp: i64 = 3; got == exp }
pub fn c288_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = v.iter().map(|x| x.abs()).max().unwrap_or(0); let exp: i64 = 3; got == exp }
pub fn c288_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = v.iter().map(|x| x.abs()).max().unwrap_or(0); let exp: i64 = 5; got == exp }
pub fn c288_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = v.iter().map(|x| x.abs()).max().unwrap_or(0); let exp: i64 = 10; got == exp }
pub fn c289_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut n = 0; for x in v.iter().rev() { n += 1; if *x == 5 { break; } } n }; let exp: i64 = 0; got == exp }
pub fn c289_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut n = 0; for x in v.iter().rev() { n += 1; if *x == 5 { break; } } n }; let exp: i64 = 1; got == exp }
pub fn c289_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut n = 0; for x in v.iter().rev() { n += 1; if *x == 5 { break; } } n }; let exp: i64 = 3; got == exp }
pub fn c289_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut n = 0; for x in v.iter().rev() { n += 1; if *x == 5 { break; } } n }; let exp: i64 = 3; got == exp }
pub fn c289_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut n = 0; for x in v.iter().rev() { n += 1; if *x == 5 { break; } } n }; let exp: i64 = 5; got == exp }
pub fn c290_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut n = 0; for a in &v { for b in &v { if a < b { n += 1; } } } n }; let exp: i64 = 0; got == exp }
pub fn c290_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut n = 0; for a in &v { for b in &v { if a < b { n += 1; } } } n }; let exp: i64 = 0; got == exp }
pub fn c290_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut n = 0; for a in &v { for b in &v { if a < b { n += 1; } } } n }; let exp: i64 = 3; got == exp }
pub fn c290_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut n = 0; for a in &v { for b in &v { if a < b { n += 1; } } } n }; let exp: i64 = 5; got == exp }
pub fn c290_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut n = 0; for a in &v { for b in &v { if a < b { n += 1; } } } n }; let exp: i64 = 10; got == exp }
pub fn c291_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut n = 0; 'o: for a in &v { for b in &v { if a + b == 4 { n = *a; break 'o; } } } n }; let exp: i64 = 0; got == exp }
pub fn c291_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut n = 0; 'o: for a in &v { for b in &v { if a + b == 4 { n = *a; break 'o; } } } n }; let exp: i64 = 0; got == exp }
pub fn c291_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut n = 0; 'o: for a in &v { for b in &v { if a + b == 4 { n = *a; break 'o; } } } n }; let exp: i64 = 1; got == exp }
pub fn c291_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut n = 0; 'o: for a in &v { for b in &v { if a + b == 4 { n = *a; break 'o; } } } n }; let exp: i64 = 5; got == exp }
pub fn c291_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut n = 0; 'o: for a in &v { for b in &v { if a + b == 4 { n = *a; break 'o; } } } n }; let exp: i64 = 2; got == exp }
pub fn c292_0() -> bool { let v: Vec<i64> = vec![]; let n: usize = 0; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c292_1() -> bool { let v: Vec<i64> = vec![]; let n: usize = 1; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c292_2() -> bool { let v: Vec<i64> = vec![]; let n: usize = 2; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c292_3() -> bool { let v: Vec<i64> = vec![]; let n: usize = 3; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c292_4() -> bool { let v: Vec<i64> = vec![]; let n: usize = 7; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c292_5() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 0; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c292_6() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 1; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c292_7() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 2; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c292_8() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 3; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c292_9() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 7; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c292_10() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 0; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = Some(1); got == exp }
pub fn c292_11() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 1; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c292_12() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 2; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c292_13() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 3; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c292_14() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 7; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c292_15() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 0; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = Some(5); got == exp }
pub fn c292_16() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 1; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = Some(5); got == exp }
pub fn c292_17() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 2; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = Some(-1); got == exp }
pub fn c292_18() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 3; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c292_19() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 7; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c292_20() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 0; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c292_21() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 1; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = Some(4); got == exp }
pub fn c292_22() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 2; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = Some(6); got == exp }
pub fn c292_23() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 3; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = Some(8); got == exp }
pub fn c292_24() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 7; let got: Option<i64> = v.get(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c293_0() -> bool { let v: Vec<i64> = vec![]; let n: usize = 0; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = None; got == exp }
pub fn c293_1() -> bool { let v: Vec<i64> = vec![]; let n: usize = 1; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = None; got == exp }
pub fn c293_2() -> bool { let v: Vec<i64> = vec![]; let n: usize = 2; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = None; got == exp }
pub fn c293_3() -> bool { let v: Vec<i64> = vec![]; let n: usize = 3; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = None; got == exp }
pub fn c293_4() -> bool { let v: Vec<i64> = vec![]; let n: usize = 7; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = None; got == exp }
pub fn c293_5() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 0; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c293_6() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 1; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = None; got == exp }
pub fn c293_7() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 2; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = None; got == exp }
pub fn c293_8() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 3; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = None; got == exp }
pub fn c293_9() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 7; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = None; got == exp }
pub fn c293_10() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 0; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = Some(1); got == exp }
pub fn c293_11() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 1; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c293_12() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 2; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c293_13() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 3; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = None; got == exp }
pub fn c293_14() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 7; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = None; got == exp }
pub fn c293_15() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 0; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = Some(5); got == exp }
pub fn c293_16() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 1; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = Some(5); got == exp }
pub fn c293_17() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 2; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = Some(-1); got == exp }
pub fn c293_18() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 3; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c293_19() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 7; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = None; got == exp }
pub fn c293_20() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 0; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c293_21() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 1; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = Some(4); got == exp }
pub fn c293_22() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 2; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = Some(6); got == exp }
pub fn c293_23() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 3; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = Some(8); got == exp }
pub fn c293_24() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 7; let got: Option<i64> = v.iter().skip(n).next().copied(); let exp: Option<i64> = None; got == exp }
pub fn c294_0() -> bool { let v: Vec<i64> = vec![]; let n: usize = 0; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c294_1() -> bool { let v: Vec<i64> = vec![]; let n: usize = 1; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c294_2() -> bool { let v: Vec<i64> = vec![]; let n: usize = 2; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c294_3() -> bool { let v: Vec<i64> = vec![]; let n: usize = 3; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c294_4() -> bool { let v: Vec<i64> = vec![]; let n: usize = 7; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c294_5() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 0; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c294_6() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 1; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c294_7() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 2; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c294_8() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 3; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c294_9() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 7; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c294_10() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 0; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c294_11() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 1; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = Some(1); got == exp }
pub fn c294_12() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 2; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c294_13() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 3; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c294_14() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 7; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c294_15() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 0; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c294_16() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 1; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = Some(5); got == exp }
pub fn c294_17() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 2; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = Some(5); got == exp }
pub fn c294_18() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 3; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = Some(-1); got == exp }
pub fn c294_19() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 7; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c294_20() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 0; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c294_21() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 1; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c294_22() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 2; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = Some(4); got == exp }
pub fn c294_23() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 3; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = Some(6); got == exp }
pub fn c294_24() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 7; let got: Option<i64> = v.iter().take(n).last().copied(); let exp: Option<i64> = Some(10); got == exp }
pub fn c295_0() -> bool { let v: Vec<i64> = vec![]; let n: usize = 0; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = None; got == exp }
pub fn c295_1() -> bool { let v: Vec<i64> = vec![]; let n: usize = 1; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = None; got == exp }
pub fn c295_2() -> bool { let v: Vec<i64> = vec![]; let n: usize = 2; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = None; got == exp }
pub fn c295_3() -> bool { let v: Vec<i64> = vec![]; let n: usize = 3; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = None; got == exp }
pub fn c295_4() -> bool { let v: Vec<i64> = vec![]; let n: usize = 7; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = None; got == exp }
pub fn c295_5() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 0; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = Some(3); got == exp }
pub fn c295_6() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 1; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = None; got == exp }
pub fn c295_7() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 2; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = None; got == exp }
pub fn c295_8() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 3; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = None; got == exp }
pub fn c295_9() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 7; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = None; got == exp }
pub fn c295_10() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 0; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = Some(1); got == exp }
pub fn c295_11() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 1; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = Some(2); got == exp }
pub fn c295_12() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 2; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = Some(3); got == exp }
pub fn c295_13() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 3; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = None; got == exp }
pub fn c295_14() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 7; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = None; got == exp }
pub fn c295_15() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 0; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = Some(5); got == exp }
pub fn c295_16() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 1; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = Some(5); got == exp }
pub fn c295_17() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 2; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = Some(-1); got == exp }
pub fn c295_18() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 3; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = Some(2); got == exp }
pub fn c295_19() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 7; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = None; got == exp }
pub fn c295_20() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 0; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = Some(2); got == exp }
pub fn c295_21() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 1; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = Some(4); got == exp }
pub fn c295_22() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 2; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = Some(6); got == exp }
pub fn c295_23() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 3; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = Some(8); got == exp }
pub fn c295_24() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 7; let got: Option<i64> = if n < v.len() { Some(v[n]) } else { None }; let exp: Option<i64> = None; got == exp }
pub fn c296_0() -> bool { let v: Vec<i64> = vec![]; let n: usize = 0; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c296_1() -> bool { let v: Vec<i64> = vec![]; let n: usize = 1; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c296_2() -> bool { let v: Vec<i64> = vec![]; let n: usize = 2; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c296_3() -> bool { let v: Vec<i64> = vec![]; let n: usize = 3; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c296_4() -> bool { let v: Vec<i64> = vec![]; let n: usize = 7; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c296_5() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 0; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c296_6() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 1; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c296_7() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 2; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c296_8() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 3; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c296_9() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 7; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c296_10() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 0; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c296_11() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 1; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = Some(1); got == exp }
pub fn c296_12() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 2; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c296_13() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 3; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c296_14() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 7; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c296_15() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 0; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c296_16() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 1; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = Some(5); got == exp }
pub fn c296_17() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 2; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = Some(5); got == exp }
pub fn c296_18() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 3; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = Some(-1); got == exp }
pub fn c296_19() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 7; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c296_20() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 0; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = None; got == exp }
pub fn c296_21() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 1; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c296_22() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 2; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = Some(4); got == exp }
pub fn c296_23() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 3; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = Some(6); got == exp }
pub fn c296_24() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 7; let got: Option<i64> = v[..n.min(v.len())].last().copied(); let exp: Option<i64> = Some(10); got == exp }
pub fn c297_0() -> bool { let v: Vec<i64> = vec![]; let n: usize = 0; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c297_1() -> bool { let v: Vec<i64> = vec![]; let n: usize = 1; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c297_2() -> bool { let v: Vec<i64> = vec![]; let n: usize = 2; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c297_3() -> bool { let v: Vec<i64> = vec![]; let n: usize = 3; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c297_4() -> bool { let v: Vec<i64> = vec![]; let n: usize = 7; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c297_5() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 0; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c297_6() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 1; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c297_7() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 2; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c297_8() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 3; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c297_9() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 7; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c297_10() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 0; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = Some(1); got == exp }
pub fn c297_11() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 1; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c297_12() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 2; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = Some(3); got == exp }
pub fn c297_13() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 3; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c297_14() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 7; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c297_15() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 0; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = Some(5); got == exp }
pub fn c297_16() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 1; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = Some(5); got == exp }
pub fn c297_17() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 2; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = Some(-1); got == exp }
pub fn c297_18() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 3; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c297_19() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 7; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c297_20() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 0; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = Some(2); got == exp }
pub fn c297_21() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 1; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = Some(4); got == exp }
pub fn c297_22() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 2; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = Some(6); got == exp }
pub fn c297_23() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 3; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = Some(8); got == exp }
pub fn c297_24() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 7; let got: Option<i64> = v.iter().nth(n).copied(); let exp: Option<i64> = None; got == exp }
pub fn c298_0() -> bool { let v: Vec<i64> = vec![]; let n: usize = 0; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c298_1() -> bool { let v: Vec<i64> = vec![]; let n: usize = 1; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c298_2() -> bool { let v: Vec<i64> = vec![]; let n: usize = 2; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c298_3() -> bool { let v: Vec<i64> = vec![]; let n: usize = 3; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c298_4() -> bool { let v: Vec<i64> = vec![]; let n: usize = 7; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c298_5() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 0; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c298_6() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 1; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c298_7() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 2; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c298_8() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 3; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c298_9() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 7; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c298_10() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 0; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c298_11() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 1; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c298_12() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 2; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c298_13() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 3; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c298_14() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 7; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c298_15() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 0; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![5, 5, -1, 2]; got == exp }
pub fn c298_16() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 1; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![5, -1, 2]; got == exp }
pub fn c298_17() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 2; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![-1, 2]; got == exp }
pub fn c298_18() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 3; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![2]; got == exp }
pub fn c298_19() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 7; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c298_20() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 0; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![2, 4, 6, 8, 10]; got == exp }
pub fn c298_21() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 1; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![4, 6, 8, 10]; got == exp }
pub fn c298_22() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 2; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![6, 8, 10]; got == exp }
pub fn c298_23() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 3; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![8, 10]; got == exp }
pub fn c298_24() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 7; let got: Vec<i64> = v.iter().skip(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c299_0() -> bool { let v: Vec<i64> = vec![]; let n: usize = 0; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c299_1() -> bool { let v: Vec<i64> = vec![]; let n: usize = 1; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c299_2() -> bool { let v: Vec<i64> = vec![]; let n: usize = 2; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c299_3() -> bool { let v: Vec<i64> = vec![]; let n: usize = 3; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c299_4() -> bool { let v: Vec<i64> = vec![]; let n: usize = 7; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c299_5() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 0; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c299_6() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 1; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c299_7() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 2; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c299_8() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 3; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c299_9() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 7; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c299_10() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 0; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c299_11() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 1; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![1]; got == exp }
pub fn c299_12() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 2; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![1, 2]; got == exp }
pub fn c299_13() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 3; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c299_14() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 7; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c299_15() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 0; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c299_16() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 1; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![5]; got == exp }
pub fn c299_17() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 2; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![5, 5]; got == exp }
pub fn c299_18() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 3; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![5, 5, -1]; got == exp }
pub fn c299_19() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 7; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![5, 5, -1, 2]; got == exp }
pub fn c299_20() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 0; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c299_21() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 1; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![2]; got == exp }
pub fn c299_22() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 2; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![2, 4]; got == exp }
pub fn c299_23() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 3; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![2, 4, 6]; got == exp }
pub fn c299_24() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 7; let got: Vec<i64> = v.iter().take(n).copied().collect(); let exp: Vec<i64> = vec![2, 4, 6, 8, 10]; got == exp }
pub fn c300_0() -> bool { let v: Vec<i64> = vec![]; let n: usize = 0; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c300_1() -> bool { let v: Vec<i64> = vec![]; let n: usize = 1; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c300_2() -> bool { let v: Vec<i64> = vec![]; let n: usize = 2; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c300_3() -> bool { let v: Vec<i64> = vec![]; let n: usize = 3; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c300_4() -> bool { let v: Vec<i64> = vec![]; let n: usize = 7; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c300_5() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 0; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c300_6() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 1; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c300_7() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 2; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c300_8() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 3; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c300_9() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 7; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c300_10() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 0; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c300_11() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 1; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c300_12() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 2; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![3, 2]; got == exp }
pub fn c300_13() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 3; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![3, 2, 1]; got == exp }
pub fn c300_14() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 7; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![3, 2, 1]; got == exp }
pub fn c300_15() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 0; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c300_16() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 1; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![2]; got == exp }
pub fn c300_17() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 2; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![2, -1]; got == exp }
pub fn c300_18() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 3; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![2, -1, 5]; got == exp }
pub fn c300_19() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 7; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![2, -1, 5, 5]; got == exp }
pub fn c300_20() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 0; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c300_21() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 1; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![10]; got == exp }
pub fn c300_22() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 2; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![10, 8]; got == exp }
pub fn c300_23() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 3; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![10, 8, 6]; got == exp }
pub fn c300_24() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 7; let got: Vec<i64> = v.iter().rev().take(n).copied().collect(); let exp: Vec<i64> = vec![10, 8, 6, 4, 2]; got == exp }
pub fn c301_0() -> bool { let v: Vec<i64> = vec![]; let n: usize = 0; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c301_1() -> bool { let v: Vec<i64> = vec![]; let n: usize = 1; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c301_2() -> bool { let v: Vec<i64> = vec![]; let n: usize = 2; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0, 1]; got == exp }
pub fn c301_3() -> bool { let v: Vec<i64> = vec![]; let n: usize = 3; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0, 1, 2]; got == exp }
pub fn c301_4() -> bool { let v: Vec<i64> = vec![]; let n: usize = 7; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0, 1, 2, 3, 4, 5, 6]; got == exp }
pub fn c301_5() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 0; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c301_6() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 1; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c301_7() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 2; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0, 1]; got == exp }
pub fn c301_8() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 3; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0, 1, 2]; got == exp }
pub fn c301_9() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 7; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0, 1, 2, 3, 4, 5, 6]; got == exp }
pub fn c301_10() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 0; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c301_11() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 1; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c301_12() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 2; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0, 1]; got == exp }
pub fn c301_13() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 3; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0, 1, 2]; got == exp }
pub fn c301_14() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 7; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0, 1, 2, 3, 4, 5, 6]; got == exp }
pub fn c301_15() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 0; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c301_16() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 1; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c301_17() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 2; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0, 1]; got == exp }
pub fn c301_18() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 3; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0, 1, 2]; got == exp }
pub fn c301_19() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 7; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0, 1, 2, 3, 4, 5, 6]; got == exp }
pub fn c301_20() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 0; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c301_21() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 1; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c301_22() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 2; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0, 1]; got == exp }
pub fn c301_23() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 3; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0, 1, 2]; got == exp }
pub fn c301_24() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 7; let got: Vec<i64> = (0..n as i64).collect(); let exp: Vec<i64> = vec![0, 1, 2, 3, 4, 5, 6]; got == exp }
pub fn c302_0() -> bool { let v: Vec<i64> = vec![]; let n: usize = 0; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c302_1() -> bool { let v: Vec<i64> = vec![]; let n: usize = 1; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c302_2() -> bool { let v: Vec<i64> = vec![]; let n: usize = 2; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c302_3() -> bool { let v: Vec<i64> = vec![]; let n: usize = 3; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0, 2]; got == exp }
pub fn c302_4() -> bool { let v: Vec<i64> = vec![]; let n: usize = 7; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0, 2, 4, 6]; got == exp }
pub fn c302_5() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 0; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c302_6() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 1; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c302_7() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 2; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c302_8() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 3; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0, 2]; got == exp }
pub fn c302_9() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 7; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0, 2, 4, 6]; got == exp }
pub fn c302_10() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 0; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c302_11() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 1; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c302_12() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 2; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c302_13() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 3; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0, 2]; got == exp }
pub fn c302_14() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 7; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0, 2, 4, 6]; got == exp }
pub fn c302_15() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 0; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c302_16() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 1; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c302_17() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 2; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c302_18() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 3; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0, 2]; got == exp }
pub fn c302_19() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 7; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0, 2, 4, 6]; got == exp }
pub fn c302_20() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 0; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c302_21() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 1; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c302_22() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 2; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c302_23() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 3; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0, 2]; got == exp }
pub fn c302_24() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 7; let got: Vec<i64> = (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect(); let exp: Vec<i64> = vec![0, 2, 4, 6]; got == exp }
pub fn c303_0() -> bool { let v: Vec<i64> = vec![]; let n: usize = 0; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c303_1() -> bool { let v: Vec<i64> = vec![]; let n: usize = 1; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![1, 0]; got == exp }
pub fn c303_2() -> bool { let v: Vec<i64> = vec![]; let n: usize = 2; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![2, 1, 0]; got == exp }
pub fn c303_3() -> bool { let v: Vec<i64> = vec![]; let n: usize = 3; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![3, 2, 1, 0]; got == exp }
pub fn c303_4() -> bool { let v: Vec<i64> = vec![]; let n: usize = 7; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![7, 6, 5, 4, 3, 2, 1, 0]; got == exp }
pub fn c303_5() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 0; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c303_6() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 1; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![1, 0]; got == exp }
pub fn c303_7() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 2; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![2, 1, 0]; got == exp }
pub fn c303_8() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 3; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![3, 2, 1, 0]; got == exp }
pub fn c303_9() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 7; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![7, 6, 5, 4, 3, 2, 1, 0]; got == exp }
pub fn c303_10() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 0; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c303_11() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 1; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![1, 0]; got == exp }
pub fn c303_12() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 2; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![2, 1, 0]; got == exp }
pub fn c303_13() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 3; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![3, 2, 1, 0]; got == exp }
pub fn c303_14() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 7; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![7, 6, 5, 4, 3, 2, 1, 0]; got == exp }
pub fn c303_15() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 0; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c303_16() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 1; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![1, 0]; got == exp }
pub fn c303_17() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 2; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![2, 1, 0]; got == exp }
pub fn c303_18() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 3; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![3, 2, 1, 0]; got == exp }
pub fn c303_19() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 7; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![7, 6, 5, 4, 3, 2, 1, 0]; got == exp }
pub fn c303_20() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 0; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![0]; got == exp }
pub fn c303_21() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 1; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![1, 0]; got == exp }
pub fn c303_22() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 2; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![2, 1, 0]; got == exp }
pub fn c303_23() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 3; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![3, 2, 1, 0]; got == exp }
pub fn c303_24() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 7; let got: Vec<i64> = (0..=n as i64).rev().collect(); let exp: Vec<i64> = vec![7, 6, 5, 4, 3, 2, 1, 0]; got == exp }
pub fn c304_0() -> bool { let v: Vec<i64> = vec![]; let n: usize = 0; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![1]; got == exp }
pub fn c304_1() -> bool { let v: Vec<i64> = vec![]; let n: usize = 1; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![1]; got == exp }
pub fn c304_2() -> bool { let v: Vec<i64> = vec![]; let n: usize = 2; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![1]; got == exp }
pub fn c304_3() -> bool { let v: Vec<i64> = vec![]; let n: usize = 3; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![1]; got == exp }
pub fn c304_4() -> bool { let v: Vec<i64> = vec![]; let n: usize = 7; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![1]; got == exp }
pub fn c304_5() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 0; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![1, 3]; got == exp }
pub fn c304_6() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 1; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![3, 1]; got == exp }
pub fn c304_7() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 2; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![3, 1]; got == exp }
pub fn c304_8() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 3; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![3, 1]; got == exp }
pub fn c304_9() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 7; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![3, 1]; got == exp }
pub fn c304_10() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 0; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![1, 1, 2, 3]; got == exp }
pub fn c304_11() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 1; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![1, 1, 2, 3]; got == exp }
pub fn c304_12() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 2; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![1, 2, 1, 3]; got == exp }
pub fn c304_13() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 3; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![1, 2, 3, 1]; got == exp }
pub fn c304_14() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 7; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![1, 2, 3, 1]; got == exp }
pub fn c304_15() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 0; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![1, 5, 5, -1, 2]; got == exp }
pub fn c304_16() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 1; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![5, 1, 5, -1, 2]; got == exp }
pub fn c304_17() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 2; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![5, 5, 1, -1, 2]; got == exp }
pub fn c304_18() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 3; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![5, 5, -1, 1, 2]; got == exp }
pub fn c304_19() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 7; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![5, 5, -1, 2, 1]; got == exp }
pub fn c304_20() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 0; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![1, 2, 4, 6, 8, 10]; got == exp }
pub fn c304_21() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 1; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![2, 1, 4, 6, 8, 10]; got == exp }
pub fn c304_22() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 2; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![2, 4, 1, 6, 8, 10]; got == exp }
pub fn c304_23() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 3; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![2, 4, 6, 1, 8, 10]; got == exp }
pub fn c304_24() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 7; let got: Vec<i64> = { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }; let exp: Vec<i64> = vec![2, 4, 6, 8, 10, 1]; got == exp }
pub fn c305_0() -> bool { let v: Vec<i64> = vec![]; let n: usize = 0; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c305_1() -> bool { let v: Vec<i64> = vec![]; let n: usize = 1; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c305_2() -> bool { let v: Vec<i64> = vec![]; let n: usize = 2; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c305_3() -> bool { let v: Vec<i64> = vec![]; let n: usize = 3; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c305_4() -> bool { let v: Vec<i64> = vec![]; let n: usize = 7; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c305_5() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 0; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c305_6() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 1; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c305_7() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 2; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c305_8() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 3; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c305_9() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 7; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c305_10() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 0; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c305_11() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 1; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![1]; got == exp }
pub fn c305_12() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 2; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![1, 2]; got == exp }
pub fn c305_13() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 3; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c305_14() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 7; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c305_15() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 0; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c305_16() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 1; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![5]; got == exp }
pub fn c305_17() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 2; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![5, 5]; got == exp }
pub fn c305_18() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 3; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![5, 5, -1]; got == exp }
pub fn c305_19() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 7; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![5, 5, -1, 2]; got == exp }
pub fn c305_20() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 0; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c305_21() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 1; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![2]; got == exp }
pub fn c305_22() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 2; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![2, 4]; got == exp }
pub fn c305_23() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 3; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![2, 4, 6]; got == exp }
pub fn c305_24() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 7; let got: Vec<i64> = { let mut w = v.clone(); w.truncate(n); w }; let exp: Vec<i64> = vec![2, 4, 6, 8, 10]; got == exp }
pub fn c306_0() -> bool { let v: Vec<i64> = vec![]; let n: usize = 0; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c306_1() -> bool { let v: Vec<i64> = vec![]; let n: usize = 1; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c306_2() -> bool { let v: Vec<i64> = vec![]; let n: usize = 2; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c306_3() -> bool { let v: Vec<i64> = vec![]; let n: usize = 3; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c306_4() -> bool { let v: Vec<i64> = vec![]; let n: usize = 7; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c306_5() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 0; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c306_6() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 1; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c306_7() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 2; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![3, 3]; got == exp }
pub fn c306_8() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 3; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![3, 3, 3]; got == exp }
pub fn c306_9() -> bool { let v: Vec<i64> = vec![3]; let n: usize = 7; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![3, 3, 3, 3, 3, 3, 3]; got == exp }
pub fn c306_10() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 0; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c306_11() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 1; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![1]; got == exp }
pub fn c306_12() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 2; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![1, 2]; got == exp }
pub fn c306_13() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 3; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c306_14() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let n: usize = 7; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![1, 2, 3, 1, 2, 3, 1]; got == exp }
pub fn c306_15() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 0; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c306_16() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 1; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![5]; got == exp }
pub fn c306_17() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 2; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![5, 5]; got == exp }
pub fn c306_18() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 3; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![5, 5, -1]; got == exp }
pub fn c306_19() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let n: usize = 7; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![5, 5, -1, 2, 5, 5, -1]; got == exp }
pub fn c306_20() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 0; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c306_21() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 1; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![2]; got == exp }
pub fn c306_22() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 2; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![2, 4]; got == exp }
pub fn c306_23() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 3; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![2, 4, 6]; got == exp }
pub fn c306_24() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let n: usize = 7; let got: Vec<i64> = v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect(); let exp: Vec<i64> = vec![2, 4, 6, 8, 10, 2, 4]; got == exp }
pub fn c307_0() -> bool { let v: Vec<String> = vec![]; let got: String = v.join(","); let exp: String = String::from(""); got == exp }
pub fn c307_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = v.join(","); let exp: String = String::from("\u{61}"); got == exp }
pub fn c307_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = v.join(","); let exp: String = String::from("\u{62}\u{2c}\u{2c}\u{61}"); got == exp }
pub fn c308_0() -> bool { let v: Vec<String> = vec![]; let got: String = v.concat(); let exp: String = String::from(""); got == exp }
pub fn c308_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = v.concat(); let exp: String = String::from("\u{61}"); got == exp }
pub fn c308_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = v.concat(); let exp: String = String::from("\u{62}\u{61}"); got == exp }
pub fn c309_0() -> bool { let v: Vec<String> = vec![]; let got: String = v.iter().map(|s| format!("<{s}>")).collect::<Vec<_>>().join("; "); let exp: String = String::from(""); got == exp }
pub fn c309_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = v.iter().map(|s| format!("<{s}>")).collect::<Vec<_>>().join("; "); let exp: String = String::from("\u{3c}\u{61}\u{3e}"); got == exp }
pub fn c309_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = v.iter().map(|s| format!("<{s}>")).collect::<Vec<_>>().join("; "); let exp: String = String::from("\u{3c}\u{62}\u{3e}\u{3b}\u{20}\u{3c}\u{3e}\u{3b}\u{20}\u{3c}\u{61}\u{3e}"); got == exp }
pub fn c310_0() -> bool { let v: Vec<String> = vec![]; let got: String = v.iter().map(|s| s.as_str()).collect::<String>(); let exp: String = String::from(""); got == exp }
pub fn c310_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = v.iter().map(|s| s.as_str()).collect::<String>(); let exp: String = String::from("\u{61}"); got == exp }
pub fn c310_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = v.iter().map(|s| s.as_str()).collect::<String>(); let exp: String = String::from("\u{62}\u{61}"); got == exp }
pub fn c311_0() -> bool { let v: Vec<String> = vec![]; let got: String = v.iter().fold(String::new(), |a, s| a + s); let exp: String = String::from(""); got == exp }
pub fn c311_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = v.iter().fold(String::new(), |a, s| a + s); let exp: String = String::from("\u{61}"); got == exp }
pub fn c311_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = v.iter().fold(String::new(), |a, s| a + s); let exp: String = String::from("\u{62}\u{61}"); got == exp }
pub fn c312_0() -> bool { let v: Vec<String> = vec![]; let got: String = format!("{:?}", v); let exp: String = String::from("\u{5b}\u{5d}"); got == exp }
pub fn c312_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = format!("{:?}", v); let exp: String = String::from("\u{5b}\u{22}\u{61}\u{22}\u{5d}"); got == exp }
pub fn c312_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = format!("{:?}", v); let exp: String = String::from("\u{5b}\u{22}\u{62}\u{22}\u{2c}\u{20}\u{22}\u{22}\u{2c}\u{20}\u{22}\u{61}\u{22}\u{5d}"); got == exp }
pub fn c313_0() -> bool { let v: Vec<String> = vec![]; let got: String = { let mut r = String::new(); for s in &v { if !r.is_empty() { r.push(','); } r.push_str(s); } r }; let exp: String = String::from(""); got == exp }
pub fn c313_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = { let mut r = String::new(); for s in &v { if !r.is_empty() { r.push(','); } r.push_str(s); } r }; let exp: String = String::from("\u{61}"); got == exp }
pub fn c313_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = { let mut r = String::new(); for s in &v { if !r.is_empty() { r.push(','); } r.push_str(s); } r }; let exp: String = String::from("\u{62}\u{2c}\u{2c}\u{61}"); got == exp }
pub fn c314_0() -> bool { let v: Vec<String> = vec![]; let got: bool = v.contains(&"a".to_string()); let exp: bool = false; got == exp }
pub fn c314_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: bool = v.contains(&"a".to_string()); let exp: bool = true; got == exp }
pub fn c314_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: bool = v.contains(&"a".to_string()); let exp: bool = true; got == exp }
pub fn c315_0() -> bool { let v: Vec<String> = vec![]; let got: bool = v.iter().any(|s| s == "a"); let exp: bool = false; got == exp }
pub fn c315_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: bool = v.iter().any(|s| s == "a"); let exp: bool = true; got == exp }
pub fn c315_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: bool = v.iter().any(|s| s == "a"); let exp: bool = true; got == exp }
pub fn c316_0() -> bool { let v: Vec<String> = vec![]; let got: bool = v.iter().all(|s| s.len() < 2); let exp: bool = true; got == exp }
pub fn c316_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: bool = v.iter().all(|s| s.len() < 2); let exp: bool = true; got == exp }
pub fn c316_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: bool = v.iter().all(|s| s.len() < 2); let exp: bool = true; got == exp }
pub fn c317_0() -> bool { let v: Vec<String> = vec![]; let got: bool = v.iter().any(|s| s.is_empty()); let exp: bool = false; got == exp }
pub fn c317_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: bool = v.iter().any(|s| s.is_empty()); let exp: bool = false; got == exp }
pub fn c317_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: bool = v.iter().any(|s| s.is_empty()); let exp: bool = true; got == exp }
pub fn c318_0() -> bool { let v: Vec<String> = vec![]; let got: String = v.iter().enumerate().map(|(i, x)| if i > 0 { format!(",{x}") } else { x.clone() }).collect::<String>(); let exp: String = String::from(""); got == exp }
pub fn c318_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = v.iter().enumerate().map(|(i, x)| if i > 0 { format!(",{x}") } else { x.clone() }).collect::<String>(); let exp: String = String::from("\u{61}"); got == exp }
pub fn c318_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = v.iter().enumerate().map(|(i, x)| if i > 0 { format!(",{x}") } else { x.clone() }).collect::<String>(); let exp: String = String::from("\u{62}\u{2c}\u{2c}\u{61}"); got == exp }
pub fn c319_0() -> bool { let v: Vec<String> = vec![]; let got: String = v.iter().enumerate().map(|(i, x)| if i > 1 { format!(",{x}") } else { x.clone() }).collect::<String>(); let exp: String = String::from(""); got == exp }
pub fn c319_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = v.iter().enumerate().map(|(i, x)| if i > 1 { format!(",{x}") } else { x.clone() }).collect::<String>(); let exp: String = String::from("\u{61}"); got == exp }
pub fn c319_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = v.iter().enumerate().map(|(i, x)| if i > 1 { format!(",{x}") } else { x.clone() }).collect::<String>(); let exp: String = String::from("\u{62}\u{2c}\u{61}"); got == exp }
pub fn c320_0() -> bool { let v: Vec<String> = vec![]; let got: String = { let mut r = String::new(); for (i, x) in v.iter().enumerate() { if i != 0 { r.push(','); } r.push_str(x); } r }; let exp: String = String::from(""); got == exp }
pub fn c320_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = { let mut r = String::new(); for (i, x) in v.iter().enumerate() { if i != 0 { r.push(','); } r.push_str(x); } r }; let exp: String = String::from("\u{61}"); got == exp }
pub fn c320_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = { let mut r = String::new(); for (i, x) in v.iter().enumerate() { if i != 0 { r.push(','); } r.push_str(x); } r }; let exp: String = String::from("\u{62}\u{2c}\u{2c}\u{61}"); got == exp }
pub fn c321_0() -> bool { let v: Vec<String> = vec![]; let got: String = { let mut r = String::new(); for (i, x) in v.iter().enumerate() { r.push_str(x); if i + 1 < v.len() { r.push(','); } } r }; let exp: String = String::from(""); got == exp }
pub fn c321_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = { let mut r = String::new(); for (i, x) in v.iter().enumerate() { r.push_str(x); if i + 1 < v.len() { r.push(','); } } r }; let exp: String = String::from("\u{61}"); got == exp }
pub fn c321_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = { let mut r = String::new(); for (i, x) in v.iter().enumerate() { r.push_str(x); if i + 1 < v.len() { r.push(','); } } r }; let exp: String = String::from("\u{62}\u{2c}\u{2c}\u{61}"); got == exp }
pub fn c322_0() -> bool { let v: Vec<String> = vec![]; let got: String = { let mut r = String::new(); for (i, x) in v.iter().enumerate() { r.push_str(x); if i < v.len() { r.push(','); } } r }; let exp: String = String::from(""); got == exp }
pub fn c322_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = { let mut r = String::new(); for (i, x) in v.iter().enumerate() { r.push_str(x); if i < v.len() { r.push(','); } } r }; let exp: String = String::from("\u{61}\u{2c}"); got == exp }
pub fn c322_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = { let mut r = String::new(); for (i, x) in v.iter().enumerate() { r.push_str(x); if i < v.len() { r.push(','); } } r }; let exp: String = String::from("\u{62}\u{2c}\u{2c}\u{61}\u{2c}"); got == exp }
pub fn c323_0() -> bool { let v: Vec<String> = vec![]; let got: String = { let mut r = String::new(); for i in 0..v.len() { if i >= 1 { r += ","; } r += &v[i]; } r }; let exp: String = String::from(""); got == exp }
pub fn c323_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = { let mut r = String::new(); for i in 0..v.len() { if i >= 1 { r += ","; } r += &v[i]; } r }; let exp: String = String::from("\u{61}"); got == exp }
pub fn c323_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = { let mut r = String::new(); for i in 0..v.len() { if i >= 1 { r += ","; } r += &v[i]; } r }; let exp: String = String::from("\u{62}\u{2c}\u{2c}\u{61}"); got == exp }
pub fn c324_0() -> bool { let v: Vec<String> = vec![]; let got: String = { let mut r = String::new(); let mut i = 0; while i < v.len() { if i > 0 { r.push(','); } r.push_str(&v[i]); i += 1; } r }; let exp: String = String::from(""); got == exp }
pub fn c324_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = { let mut r = String::new(); let mut i = 0; while i < v.len() { if i > 0 { r.push(','); } r.push_str(&v[i]); i += 1; } r }; let exp: String = String::from("\u{61}"); got == exp }
pub fn c324_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = { let mut r = String::new(); let mut i = 0; while i < v.len() { if i > 0 { r.push(','); } r.push_str(&v[i]); i += 1; } r }; let exp: String = String::from("\u{62}\u{2c}\u{2c}\u{61}"); got == exp }
pub fn c325_0() -> bool { let v: Vec<String> = vec![]; let got: String = v.iter().rev().cloned().collect::<Vec<_>>().join(","); let exp: String = String::from(""); got == exp }
pub fn c325_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = v.iter().rev().cloned().collect::<Vec<_>>().join(","); let exp: String = String::from("\u{61}"); got == exp }
pub fn c325_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = v.iter().rev().cloned().collect::<Vec<_>>().join(","); let exp: String = String::from("\u{61}\u{2c}\u{2c}\u{62}"); got == exp }
pub fn c326_0() -> bool { let v: Vec<String> = vec![]; let got: String = v.iter().skip(1).cloned().collect::<Vec<_>>().join(","); let exp: String = String::from(""); got == exp }
pub fn c326_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = v.iter().skip(1).cloned().collect::<Vec<_>>().join(","); let exp: String = String::from(""); got == exp }
pub fn c326_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = v.iter().skip(1).cloned().collect::<Vec<_>>().join(","); let exp: String = String::from("\u{2c}\u{61}"); got == exp }
pub fn c327_0() -> bool { let v: Vec<String> = vec![]; let got: String = v.iter().filter(|x| !x.is_empty()).cloned().collect::<Vec<_>>().join(","); let exp: String = String::from(""); got == exp }
pub fn c327_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = v.iter().filter(|x| !x.is_empty()).cloned().collect::<Vec<_>>().join(","); let exp: String = String::from("\u{61}"); got == exp }
pub fn c327_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = v.iter().filter(|x| !x.is_empty()).cloned().collect::<Vec<_>>().join(","); let exp: String = String::from("\u{62}\u{2c}\u{61}"); got == exp }
pub fn c328_0() -> bool { let v: Vec<String> = vec![]; let got: String = format!("{0}{1}{0}", v.len(), v.concat()); let exp: String = String::from("\u{30}\u{30}"); got == exp }
pub fn c328_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = format!("{0}{1}{0}", v.len(), v.concat()); let exp: String = String::from("\u{31}\u{61}\u{31}"); got == exp }
pub fn c328_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = format!("{0}{1}{0}", v.len(), v.concat()); let exp: String = String::from("\u{33}\u{62}\u{61}\u{33}"); got == exp }
pub fn c329_0() -> bool { let v: Vec<String> = vec![]; let got: String = format!("{1}{0}", v.len(), v.concat()); let exp: String = String::from("\u{30}"); got == exp }
pub fn c329_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = format!("{1}{0}", v.len(), v.concat()); let exp: String = String::from("\u{61}\u{31}"); got == exp }
pub fn c329_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = format!("{1}{0}", v.len(), v.concat()); let exp: String = String::from("\u{62}\u{61}\u{33}"); got == exp }
pub fn c330_0() -> bool { let v: Vec<String> = vec![]; let got: String = format!("{0}{1}", v.len(), v.concat()); let exp: String = String::from("\u{30}"); got == exp }
pub fn c330_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = format!("{0}{1}", v.len(), v.concat()); let exp: String = String::from("\u{31}\u{61}"); got == exp }
pub fn c330_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = format!("{0}{1}", v.len(), v.concat()); let exp: String = String::from("\u{33}\u{62}\u{61}"); got == exp }
pub fn c331_0() -> bool { let v: Vec<String> = vec![]; let got: String = format!("{}{}", v.len(), v.concat()); let exp: String = String::from("\u{30}"); got == exp }
pub fn c331_1() -> bool { let v: Vec<String> = vec!["a".to_string()]; let got: String = format!("{}{}", v.len(), v.concat()); let exp: String = String::from("\u{31}\u{61}"); got == exp }
pub fn c331_2() -> bool { let v: Vec<String> = vec!["b".to_string(), "".to_string(), "a".to_string()]; let got: String = format!("{}{}", v.len(), v.concat()); let exp: String = String::from("\u{33}\u{62}\u{61}"); got == exp }
pub fn c332_0() -> bool { let s: &str = ""; let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn s332_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn c332_1() -> bool { let s: &str = "a"; let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn s332_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn c332_2() -> bool { let s: &str = "abc"; let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn s332_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn c332_3() -> bool { let s: &str = "%a1"; let got: usize = s.split([':', '%']).count(); let exp: usize = 2; got == exp }
pub fn s332_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.split([':', '%']).count(); let exp: usize = 2; got == exp }
pub fn c332_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.split([':', '%']).count(); let exp: usize = 2; got == exp }
pub fn s332_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.split([':', '%']).count(); let exp: usize = 2; got == exp }
pub fn c332_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.split([':', '%']).count(); let exp: usize = 3; got == exp }
pub fn s332_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.split([':', '%']).count(); let exp: usize = 3; got == exp }
pub fn c332_6() -> bool { let s: &str = "::"; let got: usize = s.split([':', '%']).count(); let exp: usize = 3; got == exp }
pub fn s332_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.split([':', '%']).count(); let exp: usize = 3; got == exp }
pub fn c332_7() -> bool { let s: &str = "  x "; let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn s332_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn c332_8() -> bool { let s: &str = "12"; let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn s332_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn c332_9() -> bool { let s: &str = "-5"; let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn s332_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn c332_10() -> bool { let s: &str = "+7"; let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn s332_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn c332_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn s332_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn c332_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn s332_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn c332_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn s332_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn c332_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn s332_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn c332_15() -> bool { let s: &str = "xx"; let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn s332_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.split([':', '%']).count(); let exp: usize = 1; got == exp }
pub fn c333_0() -> bool { let s: &str = ""; let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn s333_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn c333_1() -> bool { let s: &str = "a"; let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn s333_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn c333_2() -> bool { let s: &str = "abc"; let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn s333_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn c333_3() -> bool { let s: &str = "%a1"; let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 2; got == exp }
pub fn s333_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 2; got == exp }
pub fn c333_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 2; got == exp }
pub fn s333_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 2; got == exp }
pub fn c333_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 3; got == exp }
pub fn s333_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 3; got == exp }
pub fn c333_6() -> bool { let s: &str = "::"; let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 3; got == exp }
pub fn s333_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 3; got == exp }
pub fn c333_7() -> bool { let s: &str = "  x "; let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn s333_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn c333_8() -> bool { let s: &str = "12"; let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn s333_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn c333_9() -> bool { let s: &str = "-5"; let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn s333_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn c333_10() -> bool { let s: &str = "+7"; let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn s333_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn c333_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn s333_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn c333_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn s333_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn c333_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn s333_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn c333_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn s333_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn c333_15() -> bool { let s: &str = "xx"; let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn s333_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.split(&[':', '%'][..]).count(); let exp: usize = 1; got == exp }
pub fn c334_0() -> bool { let s: &str = ""; let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn s334_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn c334_1() -> bool { let s: &str = "a"; let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn s334_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn c334_2() -> bool { let s: &str = "abc"; let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn s334_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn c334_3() -> bool { let s: &str = "%a1"; let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 2; got == exp }
pub fn s334_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 2; got == exp }
pub fn c334_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 2; got == exp }
pub fn s334_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 2; got == exp }
pub fn c334_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 3; got == exp }
pub fn s334_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 3; got == exp }
pub fn c334_6() -> bool { let s: &str = "::"; let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 3; got == exp }
pub fn s334_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 3; got == exp }
pub fn c334_7() -> bool { let s: &str = "  x "; let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn s334_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn c334_8() -> bool { let s: &str = "12"; let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn s334_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn c334_9() -> bool { let s: &str = "-5"; let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn s334_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn c334_10() -> bool { let s: &str = "+7"; let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn s334_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn c334_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn s334_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn c334_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn s334_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn c334_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn s334_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn c334_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn s334_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn c334_15() -> bool { let s: &str = "xx"; let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn s334_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.split(|c| c == ':' || c == '%').count(); let exp: usize = 1; got == exp }
pub fn c335_0() -> bool { let s: &str = ""; let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn s335_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn c335_1() -> bool { let s: &str = "a"; let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn s335_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn c335_2() -> bool { let s: &str = "abc"; let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn s335_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn c335_3() -> bool { let s: &str = "%a1"; let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn s335_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn c335_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn s335_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn c335_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.matches(':').count(); let exp: usize = 2; got == exp }
pub fn s335_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.matches(':').count(); let exp: usize = 2; got == exp }
pub fn c335_6() -> bool { let s: &str = "::"; let got: usize = s.matches(':').count(); let exp: usize = 2; got == exp }
pub fn s335_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.matches(':').count(); let exp: usize = 2; got == exp }
pub fn c335_7() -> bool { let s: &str = "  x "; let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn s335_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn c335_8() -> bool { let s: &str = "12"; let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn s335_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn c335_9() -> bool { let s: &str = "-5"; let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn s335_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn c335_10() -> bool { let s: &str = "+7"; let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn s335_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn c335_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn s335_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn c335_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn s335_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn c335_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn s335_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn c335_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn s335_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn c335_15() -> bool { let s: &str = "xx"; let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn s335_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.matches(':').count(); let exp: usize = 0; got == exp }
pub fn c336_0() -> bool { let s: &str = ""; let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn s336_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn c336_1() -> bool { let s: &str = "a"; let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn s336_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn c336_2() -> bool { let s: &str = "abc"; let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn s336_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn c336_3() -> bool { let s: &str = "%a1"; let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn s336_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn c336_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn s336_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn c336_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.rsplit(':').count(); let exp: usize = 3; got == exp }
pub fn s336_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.rsplit(':').count(); let exp: usize = 3; got == exp }
pub fn c336_6() -> bool { let s: &str = "::"; let got: usize = s.rsplit(':').count(); let exp: usize = 3; got == exp }
pub fn s336_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.rsplit(':').count(); let exp: usize = 3; got == exp }
pub fn c336_7() -> bool { let s: &str = "  x "; let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn s336_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn c336_8() -> bool { let s: &str = "12"; let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn s336_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn c336_9() -> bool { let s: &str = "-5"; let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn s336_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn c336_10() -> bool { let s: &str = "+7"; let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn s336_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn c336_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn s336_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn c336_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn s336_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn c336_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn s336_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn c336_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn s336_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn c336_15() -> bool { let s: &str = "xx"; let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn s336_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.rsplit(':').count(); let exp: usize = 1; got == exp }
pub fn c337_0() -> bool { let s: &str = ""; let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn s337_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn c337_1() -> bool { let s: &str = "a"; let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn s337_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn c337_2() -> bool { let s: &str = "abc"; let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn s337_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn c337_3() -> bool { let s: &str = "%a1"; let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn s337_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn c337_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn s337_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn c337_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.split([':']).count(); let exp: usize = 3; got == exp }
pub fn s337_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.split([':']).count(); let exp: usize = 3; got == exp }
pub fn c337_6() -> bool { let s: &str = "::"; let got: usize = s.split([':']).count(); let exp: usize = 3; got == exp }
pub fn s337_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.split([':']).count(); let exp: usize = 3; got == exp }
pub fn c337_7() -> bool { let s: &str = "  x "; let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn s337_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn c337_8() -> bool { let s: &str = "12"; let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn s337_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn c337_9() -> bool { let s: &str = "-5"; let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn s337_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn c337_10() -> bool { let s: &str = "+7"; let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn s337_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn c337_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn s337_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn c337_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn s337_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn c337_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn s337_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn c337_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn s337_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn c337_15() -> bool { let s: &str = "xx"; let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn s337_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.split([':']).count(); let exp: usize = 1; got == exp }
pub fn c338_0() -> bool { let s: &str = ""; let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn s338_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn c338_1() -> bool { let s: &str = "a"; let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn s338_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn c338_2() -> bool { let s: &str = "abc"; let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn s338_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn c338_3() -> bool { let s: &str = "%a1"; let got: bool = s.starts_with([':', '%']); let exp: bool = true; got == exp }
pub fn s338_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.starts_with([':', '%']); let exp: bool = true; got == exp }
pub fn c338_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn s338_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn c338_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn s338_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn c338_6() -> bool { let s: &str = "::"; let got: bool = s.starts_with([':', '%']); let exp: bool = true; got == exp }
pub fn s338_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.starts_with([':', '%']); let exp: bool = true; got == exp }
pub fn c338_7() -> bool { let s: &str = "  x "; let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn s338_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn c338_8() -> bool { let s: &str = "12"; let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn s338_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn c338_9() -> bool { let s: &str = "-5"; let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn s338_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn c338_10() -> bool { let s: &str = "+7"; let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn s338_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn c338_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn s338_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn c338_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn s338_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn c338_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn s338_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn c338_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn s338_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn c338_15() -> bool { let s: &str = "xx"; let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn s338_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.starts_with([':', '%']); let exp: bool = false; got == exp }
pub fn c339_0() -> bool { let s: &str = ""; let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s339_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c339_1() -> bool { let s: &str = "a"; let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s339_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c339_2() -> bool { let s: &str = "abc"; let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s339_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c339_3() -> bool { let s: &str = "%a1"; let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = true; got == exp }
pub fn s339_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = true; got == exp }
pub fn c339_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s339_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c339_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s339_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c339_6() -> bool { let s: &str = "::"; let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = true; got == exp }
pub fn s339_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = true; got == exp }
pub fn c339_7() -> bool { let s: &str = "  x "; let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s339_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c339_8() -> bool { let s: &str = "12"; let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s339_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c339_9() -> bool { let s: &str = "-5"; let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s339_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c339_10() -> bool { let s: &str = "+7"; let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s339_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c339_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s339_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c339_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s339_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c339_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s339_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c339_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s339_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c339_15() -> bool { let s: &str = "xx"; let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s339_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.starts_with(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c340_0() -> bool { let s: &str = ""; let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn s340_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn c340_1() -> bool { let s: &str = "a"; let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn s340_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn c340_2() -> bool { let s: &str = "abc"; let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn s340_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn c340_3() -> bool { let s: &str = "%a1"; let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = true; got == exp }
pub fn s340_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = true; got == exp }
pub fn c340_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn s340_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn c340_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn s340_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn c340_6() -> bool { let s: &str = "::"; let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = true; got == exp }
pub fn s340_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = true; got == exp }
pub fn c340_7() -> bool { let s: &str = "  x "; let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn s340_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn c340_8() -> bool { let s: &str = "12"; let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn s340_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn c340_9() -> bool { let s: &str = "-5"; let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn s340_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn c340_10() -> bool { let s: &str = "+7"; let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn s340_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn c340_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn s340_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn c340_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn s340_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn c340_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn s340_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn c340_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn s340_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn c340_15() -> bool { let s: &str = "xx"; let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn s340_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.starts_with(':') || s.starts_with('%'); let exp: bool = false; got == exp }
pub fn c341_0() -> bool { let s: &str = ""; let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn s341_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn c341_1() -> bool { let s: &str = "a"; let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn s341_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn c341_2() -> bool { let s: &str = "abc"; let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn s341_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn c341_3() -> bool { let s: &str = "%a1"; let got: bool = s.contains([':', '%']); let exp: bool = true; got == exp }
pub fn s341_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.contains([':', '%']); let exp: bool = true; got == exp }
pub fn c341_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.contains([':', '%']); let exp: bool = true; got == exp }
pub fn s341_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.contains([':', '%']); let exp: bool = true; got == exp }
pub fn c341_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.contains([':', '%']); let exp: bool = true; got == exp }
pub fn s341_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.contains([':', '%']); let exp: bool = true; got == exp }
pub fn c341_6() -> bool { let s: &str = "::"; let got: bool = s.contains([':', '%']); let exp: bool = true; got == exp }
pub fn s341_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.contains([':', '%']); let exp: bool = true; got == exp }
pub fn c341_7() -> bool { let s: &str = "  x "; let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn s341_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn c341_8() -> bool { let s: &str = "12"; let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn s341_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn c341_9() -> bool { let s: &str = "-5"; let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn s341_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn c341_10() -> bool { let s: &str = "+7"; let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn s341_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn c341_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn s341_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn c341_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn s341_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn c341_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn s341_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn c341_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn s341_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn c341_15() -> bool { let s: &str = "xx"; let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn s341_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.contains([':', '%']); let exp: bool = false; got == exp }
pub fn c342_0() -> bool { let s: &str = ""; let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn s342_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn c342_1() -> bool { let s: &str = "a"; let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn s342_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn c342_2() -> bool { let s: &str = "abc"; let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn s342_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn c342_3() -> bool { let s: &str = "%a1"; let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn s342_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn c342_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn s342_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn c342_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.contains(|c: char| c == ':'); let exp: bool = true; got == exp }
pub fn s342_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.contains(|c: char| c == ':'); let exp: bool = true; got == exp }
pub fn c342_6() -> bool { let s: &str = "::"; let got: bool = s.contains(|c: char| c == ':'); let exp: bool = true; got == exp }
pub fn s342_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.contains(|c: char| c == ':'); let exp: bool = true; got == exp }
pub fn c342_7() -> bool { let s: &str = "  x "; let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn s342_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn c342_8() -> bool { let s: &str = "12"; let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn s342_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn c342_9() -> bool { let s: &str = "-5"; let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn s342_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn c342_10() -> bool { let s: &str = "+7"; let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn s342_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn c342_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn s342_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn c342_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn s342_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn c342_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn s342_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn c342_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn s342_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn c342_15() -> bool { let s: &str = "xx"; let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn s342_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.contains(|c: char| c == ':'); let exp: bool = false; got == exp }
pub fn c343_0() -> bool { let s: &str = ""; let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn s343_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn c343_1() -> bool { let s: &str = "a"; let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn s343_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn c343_2() -> bool { let s: &str = "abc"; let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn s343_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn c343_3() -> bool { let s: &str = "%a1"; let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn s343_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn c343_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn s343_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn c343_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.contains(":"); let exp: bool = true; got == exp }
pub fn s343_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.contains(":"); let exp: bool = true; got == exp }
pub fn c343_6() -> bool { let s: &str = "::"; let got: bool = s.contains(":"); let exp: bool = true; got == exp }
pub fn s343_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.contains(":"); let exp: bool = true; got == exp }
pub fn c343_7() -> bool { let s: &str = "  x "; let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn s343_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn c343_8() -> bool { let s: &str = "12"; let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn s343_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn c343_9() -> bool { let s: &str = "-5"; let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn s343_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn c343_10() -> bool { let s: &str = "+7"; let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn s343_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn c343_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn s343_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn c343_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn s343_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn c343_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn s343_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn c343_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn s343_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn c343_15() -> bool { let s: &str = "xx"; let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn s343_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.contains(":"); let exp: bool = false; got == exp }
pub fn c344_0() -> bool { let s: &str = ""; let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn s344_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn c344_1() -> bool { let s: &str = "a"; let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn s344_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn c344_2() -> bool { let s: &str = "abc"; let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn s344_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn c344_3() -> bool { let s: &str = "%a1"; let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn s344_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn c344_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn s344_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn c344_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.split(':').count() > 1; let exp: bool = true; got == exp }
pub fn s344_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.split(':').count() > 1; let exp: bool = true; got == exp }
pub fn c344_6() -> bool { let s: &str = "::"; let got: bool = s.split(':').count() > 1; let exp: bool = true; got == exp }
pub fn s344_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.split(':').count() > 1; let exp: bool = true; got == exp }
pub fn c344_7() -> bool { let s: &str = "  x "; let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn s344_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn c344_8() -> bool { let s: &str = "12"; let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn s344_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn c344_9() -> bool { let s: &str = "-5"; let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn s344_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn c344_10() -> bool { let s: &str = "+7"; let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn s344_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn c344_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn s344_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn c344_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn s344_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn c344_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn s344_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn c344_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn s344_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn c344_15() -> bool { let s: &str = "xx"; let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn s344_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.split(':').count() > 1; let exp: bool = false; got == exp }
pub fn c345_0() -> bool { let s: &str = ""; let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s345_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c345_1() -> bool { let s: &str = "a"; let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s345_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c345_2() -> bool { let s: &str = "abc"; let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s345_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c345_3() -> bool { let s: &str = "%a1"; let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s345_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c345_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s345_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c345_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.split_once(':').is_some(); let exp: bool = true; got == exp }
pub fn s345_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.split_once(':').is_some(); let exp: bool = true; got == exp }
pub fn c345_6() -> bool { let s: &str = "::"; let got: bool = s.split_once(':').is_some(); let exp: bool = true; got == exp }
pub fn s345_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.split_once(':').is_some(); let exp: bool = true; got == exp }
pub fn c345_7() -> bool { let s: &str = "  x "; let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s345_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c345_8() -> bool { let s: &str = "12"; let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s345_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c345_9() -> bool { let s: &str = "-5"; let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s345_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c345_10() -> bool { let s: &str = "+7"; let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s345_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c345_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s345_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c345_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s345_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c345_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s345_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c345_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s345_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c345_15() -> bool { let s: &str = "xx"; let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s345_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.split_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c346_0() -> bool { let s: &str = ""; let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s346_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c346_1() -> bool { let s: &str = "a"; let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s346_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c346_2() -> bool { let s: &str = "abc"; let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s346_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c346_3() -> bool { let s: &str = "%a1"; let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s346_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c346_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s346_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c346_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.rsplit_once(':').is_some(); let exp: bool = true; got == exp }
pub fn s346_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.rsplit_once(':').is_some(); let exp: bool = true; got == exp }
pub fn c346_6() -> bool { let s: &str = "::"; let got: bool = s.rsplit_once(':').is_some(); let exp: bool = true; got == exp }
pub fn s346_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.rsplit_once(':').is_some(); let exp: bool = true; got == exp }
pub fn c346_7() -> bool { let s: &str = "  x "; let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s346_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c346_8() -> bool { let s: &str = "12"; let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s346_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c346_9() -> bool { let s: &str = "-5"; let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s346_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c346_10() -> bool { let s: &str = "+7"; let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s346_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c346_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s346_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c346_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s346_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c346_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s346_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c346_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s346_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c346_15() -> bool { let s: &str = "xx"; let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn s346_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.rsplit_once(':').is_some(); let exp: bool = false; got == exp }
pub fn c347_0() -> bool { let s: &str = ""; let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn s347_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn c347_1() -> bool { let s: &str = "a"; let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn s347_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn c347_2() -> bool { let s: &str = "abc"; let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn s347_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn c347_3() -> bool { let s: &str = "%a1"; let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn s347_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn c347_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn s347_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn c347_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.find(':').is_some(); let exp: bool = true; got == exp }
pub fn s347_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.find(':').is_some(); let exp: bool = true; got == exp }
pub fn c347_6() -> bool { let s: &str = "::"; let got: bool = s.find(':').is_some(); let exp: bool = true; got == exp }
pub fn s347_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.find(':').is_some(); let exp: bool = true; got == exp }
pub fn c347_7() -> bool { let s: &str = "  x "; let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn s347_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn c347_8() -> bool { let s: &str = "12"; let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn s347_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn c347_9() -> bool { let s: &str = "-5"; let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn s347_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn c347_10() -> bool { let s: &str = "+7"; let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn s347_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn c347_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn s347_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn c347_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn s347_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn c347_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn s347_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn c347_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn s347_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn c347_15() -> bool { let s: &str = "xx"; let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn s347_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.find(':').is_some(); let exp: bool = false; got == exp }
pub fn c348_0() -> bool { let s: &str = ""; let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn s348_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn c348_1() -> bool { let s: &str = "a"; let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn s348_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn c348_2() -> bool { let s: &str = "abc"; let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn s348_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn c348_3() -> bool { let s: &str = "%a1"; let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn s348_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn c348_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn s348_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn c348_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.rfind(':').is_none(); let exp: bool = false; got == exp }
pub fn s348_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.rfind(':').is_none(); let exp: bool = false; got == exp }
pub fn c348_6() -> bool { let s: &str = "::"; let got: bool = s.rfind(':').is_none(); let exp: bool = false; got == exp }
pub fn s348_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.rfind(':').is_none(); let exp: bool = false; got == exp }
pub fn c348_7() -> bool { let s: &str = "  x "; let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn s348_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn c348_8() -> bool { let s: &str = "12"; let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn s348_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn c348_9() -> bool { let s: &str = "-5"; let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn s348_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn c348_10() -> bool { let s: &str = "+7"; let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn s348_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn c348_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn s348_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn c348_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn s348_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn c348_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn s348_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn c348_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn s348_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn c348_15() -> bool { let s: &str = "xx"; let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn s348_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.rfind(':').is_none(); let exp: bool = true; got == exp }
pub fn c349_0() -> bool { let s: &str = ""; let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s349_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c349_1() -> bool { let s: &str = "a"; let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s349_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c349_2() -> bool { let s: &str = "abc"; let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s349_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c349_3() -> bool { let s: &str = "%a1"; let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = true; got == exp }
pub fn s349_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = true; got == exp }
pub fn c349_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = true; got == exp }
pub fn s349_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = true; got == exp }
pub fn c349_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = true; got == exp }
pub fn s349_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = true; got == exp }
pub fn c349_6() -> bool { let s: &str = "::"; let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = true; got == exp }
pub fn s349_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = true; got == exp }
pub fn c349_7() -> bool { let s: &str = "  x "; let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s349_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c349_8() -> bool { let s: &str = "12"; let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s349_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c349_9() -> bool { let s: &str = "-5"; let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s349_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c349_10() -> bool { let s: &str = "+7"; let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s349_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c349_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s349_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c349_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s349_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c349_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s349_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c349_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s349_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c349_15() -> bool { let s: &str = "xx"; let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn s349_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.chars().any(|c| c == ':' || c == '%'); let exp: bool = false; got == exp }
pub fn c350_0() -> bool { let s: &str = ""; let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn s350_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn c350_1() -> bool { let s: &str = "a"; let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn s350_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn c350_2() -> bool { let s: &str = "abc"; let got: bool = s.ends_with([':', 'c']); let exp: bool = true; got == exp }
pub fn s350_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.ends_with([':', 'c']); let exp: bool = true; got == exp }
pub fn c350_3() -> bool { let s: &str = "%a1"; let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn s350_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn c350_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn s350_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn c350_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.ends_with([':', 'c']); let exp: bool = true; got == exp }
pub fn s350_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.ends_with([':', 'c']); let exp: bool = true; got == exp }
pub fn c350_6() -> bool { let s: &str = "::"; let got: bool = s.ends_with([':', 'c']); let exp: bool = true; got == exp }
pub fn s350_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.ends_with([':', 'c']); let exp: bool = true; got == exp }
pub fn c350_7() -> bool { let s: &str = "  x "; let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn s350_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn c350_8() -> bool { let s: &str = "12"; let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn s350_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn c350_9() -> bool { let s: &str = "-5"; let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn s350_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn c350_10() -> bool { let s: &str = "+7"; let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn s350_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn c350_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn s350_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn c350_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.ends_with([':', 'c']); let exp: bool = true; got == exp }
pub fn s350_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.ends_with([':', 'c']); let exp: bool = true; got == exp }
pub fn c350_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn s350_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn c350_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn s350_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn c350_15() -> bool { let s: &str = "xx"; let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn s350_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.ends_with([':', 'c']); let exp: bool = false; got == exp }
pub fn c351_0() -> bool { let s: &str = ""; let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s351_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c351_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s351_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c351_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s351_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c351_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s351_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c351_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s351_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c351_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = Some("\u{62}"); got == exp }
pub fn s351_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = Some("\u{62}"); got == exp }
pub fn c351_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = Some(""); got == exp }
pub fn s351_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = Some(""); got == exp }
pub fn c351_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s351_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c351_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s351_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c351_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s351_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c351_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s351_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c351_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s351_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c351_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s351_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c351_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s351_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c351_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s351_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c351_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s351_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.rsplit(':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c352_0() -> bool { let s: &str = ""; let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s352_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c352_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s352_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c352_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn s352_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn c352_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{61}\u{31}"); got == exp }
pub fn s352_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{61}\u{31}"); got == exp }
pub fn c352_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{78}"); got == exp }
pub fn s352_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{78}"); got == exp }
pub fn c352_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn s352_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn c352_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s352_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c352_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s352_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c352_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn s352_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn c352_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn s352_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn c352_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn s352_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn c352_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s352_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c352_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s352_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c352_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn s352_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn c352_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn s352_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn c352_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn s352_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.rsplit([':', '%']).next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn c353_0() -> bool { let s: &str = ""; let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some(""); got == exp }
pub fn s353_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some(""); got == exp }
pub fn c353_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s353_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c353_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn s353_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn c353_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{61}\u{31}"); got == exp }
pub fn s353_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{61}\u{31}"); got == exp }
pub fn c353_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{78}"); got == exp }
pub fn s353_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{78}"); got == exp }
pub fn c353_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn s353_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn c353_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some(""); got == exp }
pub fn s353_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some(""); got == exp }
pub fn c353_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s353_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c353_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn s353_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn c353_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn s353_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn c353_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn s353_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn c353_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s353_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c353_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s353_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c353_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn s353_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn c353_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn s353_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn c353_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn s353_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.split([':', '%']).last(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn c354_0() -> bool { let s: &str = ""; let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s354_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c354_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s354_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c354_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s354_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c354_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s354_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c354_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s354_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c354_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn s354_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn c354_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = Some(""); got == exp }
pub fn s354_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = Some(""); got == exp }
pub fn c354_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s354_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c354_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s354_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c354_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s354_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c354_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s354_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c354_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s354_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c354_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s354_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c354_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s354_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c354_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s354_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c354_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s354_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c355_0() -> bool { let s: &str = ""; let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s355_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c355_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s355_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c355_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s355_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c355_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s355_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c355_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s355_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c355_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s355_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c355_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = Some(""); got == exp }
pub fn s355_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = Some(""); got == exp }
pub fn c355_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s355_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c355_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s355_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c355_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s355_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c355_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s355_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c355_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s355_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c355_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s355_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c355_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s355_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c355_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s355_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c355_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s355_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c356_0() -> bool { let s: &str = ""; let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s356_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c356_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s356_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c356_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s356_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c356_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s356_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c356_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s356_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c356_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = Some("\u{62}\u{3a}\u{63}"); got == exp }
pub fn s356_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = Some("\u{62}\u{3a}\u{63}"); got == exp }
pub fn c356_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = Some("\u{3a}"); got == exp }
pub fn s356_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = Some("\u{3a}"); got == exp }
pub fn c356_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s356_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c356_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s356_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c356_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s356_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c356_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s356_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c356_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s356_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c356_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s356_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c356_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s356_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c356_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s356_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c356_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn s356_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.split_once(':').map(|x| x.1); let exp: Option<&str> = None; got == exp }
pub fn c357_0() -> bool { let s: &str = ""; let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s357_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c357_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s357_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c357_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s357_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c357_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s357_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c357_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s357_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c357_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = Some("\u{61}\u{3a}\u{62}"); got == exp }
pub fn s357_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = Some("\u{61}\u{3a}\u{62}"); got == exp }
pub fn c357_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = Some("\u{3a}"); got == exp }
pub fn s357_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = Some("\u{3a}"); got == exp }
pub fn c357_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s357_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c357_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s357_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c357_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s357_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c357_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s357_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c357_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s357_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c357_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s357_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c357_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s357_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c357_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s357_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c357_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn s357_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.rsplit_once(':').map(|x| x.0); let exp: Option<&str> = None; got == exp }
pub fn c358_0() -> bool { let s: &str = ""; let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s358_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c358_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s358_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c358_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s358_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c358_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s358_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c358_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s358_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c358_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn s358_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn c358_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = Some(""); got == exp }
pub fn s358_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = Some(""); got == exp }
pub fn c358_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s358_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c358_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s358_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c358_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s358_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c358_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s358_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c358_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s358_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c358_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s358_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c358_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s358_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c358_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s358_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c358_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s358_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c359_0() -> bool { let s: &str = ""; let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn s359_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn c359_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn s359_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn c359_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn s359_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn c359_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn s359_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn c359_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn s359_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn c359_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s359_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c359_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = Some(""); got == exp }
pub fn s359_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = Some(""); got == exp }
pub fn c359_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn s359_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn c359_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn s359_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn c359_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn s359_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn c359_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn s359_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn c359_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn s359_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn c359_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn s359_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn c359_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn s359_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn c359_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn s359_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn c359_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn s359_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.find(':').map(|i| &s[..i]); let exp: Option<&str> = None; got == exp }
pub fn c360_0() -> bool { let s: &str = ""; let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s360_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c360_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s360_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c360_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s360_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c360_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = Some("\u{61}\u{31}"); got == exp }
pub fn s360_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = Some("\u{61}\u{31}"); got == exp }
pub fn c360_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = Some("\u{78}"); got == exp }
pub fn s360_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = Some("\u{78}"); got == exp }
pub fn c360_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn s360_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn c360_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = Some(""); got == exp }
pub fn s360_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = Some(""); got == exp }
pub fn c360_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s360_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c360_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s360_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c360_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s360_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c360_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s360_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c360_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s360_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c360_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s360_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c360_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s360_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c360_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s360_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c360_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn s360_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.rfind([':', '%']).map(|i| &s[i + 1..]); let exp: Option<&str> = None; got == exp }
pub fn c361_0() -> bool { let s: &str = ""; let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s361_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c361_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s361_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c361_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s361_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c361_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s361_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c361_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s361_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c361_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = Some("\u{62}\u{3a}\u{63}"); got == exp }
pub fn s361_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = Some("\u{62}\u{3a}\u{63}"); got == exp }
pub fn c361_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = Some("\u{3a}"); got == exp }
pub fn s361_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = Some("\u{3a}"); got == exp }
pub fn c361_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s361_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c361_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s361_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c361_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s361_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c361_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s361_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c361_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s361_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c361_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s361_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c361_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s361_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c361_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s361_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c361_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn s361_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.splitn(2, ':').nth(1); let exp: Option<&str> = None; got == exp }
pub fn c362_0() -> bool { let s: &str = ""; let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s362_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c362_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s362_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c362_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn s362_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn c362_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn s362_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn c362_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s362_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c362_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn s362_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn c362_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some(""); got == exp }
pub fn s362_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some(""); got == exp }
pub fn c362_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s362_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c362_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn s362_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn c362_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn s362_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn c362_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn s362_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn c362_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s362_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c362_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s362_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c362_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn s362_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn c362_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn s362_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn c362_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn s362_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.rsplitn(2, ':').next(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn c363_0() -> bool { let s: &str = ""; let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some(""); got == exp }
pub fn s363_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some(""); got == exp }
pub fn c363_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn s363_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{61}"); got == exp }
pub fn c363_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn s363_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{61}\u{62}\u{63}"); got == exp }
pub fn c363_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn s363_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{25}\u{61}\u{31}"); got == exp }
pub fn c363_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s363_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c363_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn s363_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{63}"); got == exp }
pub fn c363_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some(""); got == exp }
pub fn s363_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some(""); got == exp }
pub fn c363_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s363_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c363_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn s363_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{31}\u{32}"); got == exp }
pub fn c363_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn s363_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{2d}\u{35}"); got == exp }
pub fn c363_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn s363_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{2b}\u{37}"); got == exp }
pub fn c363_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s363_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c363_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s363_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c363_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn s363_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{65e5}\u{672c}"); got == exp }
pub fn c363_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn s363_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{1f600}\u{7a}"); got == exp }
pub fn c363_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn s363_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.split(':').next_back(); let exp: Option<&str> = Some("\u{78}\u{78}"); got == exp }
pub fn c364_0() -> bool { let s: &str = ""; let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn s364_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn c364_1() -> bool { let s: &str = "a"; let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn s364_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn c364_2() -> bool { let s: &str = "abc"; let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn s364_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn c364_3() -> bool { let s: &str = "%a1"; let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn s364_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn c364_4() -> bool { let s: &str = "\u{e9}%x"; let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn s364_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn c364_5() -> bool { let s: &str = "a:b:c"; let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = Some("\u{3a}\u{63}"); got == exp }
pub fn s364_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = Some("\u{3a}\u{63}"); got == exp }
pub fn c364_6() -> bool { let s: &str = "::"; let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = Some("\u{3a}"); got == exp }
pub fn s364_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = Some("\u{3a}"); got == exp }
pub fn c364_7() -> bool { let s: &str = "  x "; let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn s364_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn c364_8() -> bool { let s: &str = "12"; let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn s364_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn c364_9() -> bool { let s: &str = "-5"; let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn s364_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn c364_10() -> bool { let s: &str = "+7"; let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn s364_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn c364_11() -> bool { let s: &str = "99999999999999999999"; let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn s364_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn c364_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn s364_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn c364_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn s364_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn c364_14() -> bool { let s: &str = "\u{1f600}z"; let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn s364_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn c364_15() -> bool { let s: &str = "xx"; let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn s364_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: Option<&str> = s.rfind(':').map(|i| &s[i..]); let exp: Option<&str> = None; got == exp }
pub fn c365_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut o = vec![]; for i in 1..v.len() { o.push(v[i]); } o }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c365_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut o = vec![]; for i in 1..v.len() { o.push(v[i]); } o }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c365_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut o = vec![]; for i in 1..v.len() { o.push(v[i]); } o }; let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c365_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut o = vec![]; for i in 1..v.len() { o.push(v[i]); } o }; let exp: Vec<i64> = vec![5, -1, 2]; got == exp }
pub fn c365_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut o = vec![]; for i in 1..v.len() { o.push(v[i]); } o }; let exp: Vec<i64> = vec![4, 6, 8, 10]; got == exp }
pub fn c366_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v[1.min(v.len())..].to_vec(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c366_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v[1.min(v.len())..].to_vec(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c366_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v[1.min(v.len())..].to_vec(); let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c366_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v[1.min(v.len())..].to_vec(); let exp: Vec<i64> = vec![5, -1, 2]; got == exp }
pub fn c366_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v[1.min(v.len())..].to_vec(); let exp: Vec<i64> = vec![4, 6, 8, 10]; got == exp }
pub fn c367_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut o = vec![]; let mut i = 1; while i < v.len() { o.push(v[i]); i += 1; } o }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c367_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut o = vec![]; let mut i = 1; while i < v.len() { o.push(v[i]); i += 1; } o }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c367_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut o = vec![]; let mut i = 1; while i < v.len() { o.push(v[i]); i += 1; } o }; let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c367_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut o = vec![]; let mut i = 1; while i < v.len() { o.push(v[i]); i += 1; } o }; let exp: Vec<i64> = vec![5, -1, 2]; got == exp }
pub fn c367_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut o = vec![]; let mut i = 1; while i < v.len() { o.push(v[i]); i += 1; } o }; let exp: Vec<i64> = vec![4, 6, 8, 10]; got == exp }
pub fn c368_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().skip(1).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c368_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().skip(1).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c368_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().skip(1).copied().collect(); let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c368_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().skip(1).copied().collect(); let exp: Vec<i64> = vec![5, -1, 2]; got == exp }
pub fn c368_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().skip(1).copied().collect(); let exp: Vec<i64> = vec![4, 6, 8, 10]; got == exp }
pub fn c369_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut o = vec![]; for i in 0..v.len() { if i > 0 { o.push(v[i]); } } o }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c369_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut o = vec![]; for i in 0..v.len() { if i > 0 { o.push(v[i]); } } o }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c369_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut o = vec![]; for i in 0..v.len() { if i > 0 { o.push(v[i]); } } o }; let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c369_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut o = vec![]; for i in 0..v.len() { if i > 0 { o.push(v[i]); } } o }; let exp: Vec<i64> = vec![5, -1, 2]; got == exp }
pub fn c369_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut o = vec![]; for i in 0..v.len() { if i > 0 { o.push(v[i]); } } o }; let exp: Vec<i64> = vec![4, 6, 8, 10]; got == exp }
pub fn c370_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = match v.as_slice() { [] => vec![], [_, r @ ..] => r.to_vec() }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c370_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = match v.as_slice() { [] => vec![], [_, r @ ..] => r.to_vec() }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c370_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = match v.as_slice() { [] => vec![], [_, r @ ..] => r.to_vec() }; let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c370_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = match v.as_slice() { [] => vec![], [_, r @ ..] => r.to_vec() }; let exp: Vec<i64> = vec![5, -1, 2]; got == exp }
pub fn c370_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = match v.as_slice() { [] => vec![], [_, r @ ..] => r.to_vec() }; let exp: Vec<i64> = vec![4, 6, 8, 10]; got == exp }
pub fn c371_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = match v.as_slice() { [a, .., b] => vec![*a, *b], r => r.to_vec() }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c371_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = match v.as_slice() { [a, .., b] => vec![*a, *b], r => r.to_vec() }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c371_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = match v.as_slice() { [a, .., b] => vec![*a, *b], r => r.to_vec() }; let exp: Vec<i64> = vec![1, 3]; got == exp }
pub fn c371_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = match v.as_slice() { [a, .., b] => vec![*a, *b], r => r.to_vec() }; let exp: Vec<i64> = vec![5, 2]; got == exp }
pub fn c371_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = match v.as_slice() { [a, .., b] => vec![*a, *b], r => r.to_vec() }; let exp: Vec<i64> = vec![2, 10]; got == exp }
pub fn c372_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut o = vec![]; if let (Some(a), Some(b)) = (v.first(), v.last()) { if v.len() > 1 { o.push(*a); o.push(*b); } else { o.push(*a); } } o }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c372_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut o = vec![]; if let (Some(a), Some(b)) = (v.first(), v.last()) { if v.len() > 1 { o.push(*a); o.push(*b); } else { o.push(*a); } } o }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c372_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut o = vec![]; if let (Some(a), Some(b)) = (v.first(), v.last()) { if v.len() > 1 { o.push(*a); o.push(*b); } else { o.push(*a); } } o }; let exp: Vec<i64> = vec![1, 3]; got == exp }
pub fn c372_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut o = vec![]; if let (Some(a), Some(b)) = (v.first(), v.last()) { if v.len() > 1 { o.push(*a); o.push(*b); } else { o.push(*a); } } o }; let exp: Vec<i64> = vec![5, 2]; got == exp }
pub fn c372_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut o = vec![]; if let (Some(a), Some(b)) = (v.first(), v.last()) { if v.len() > 1 { o.push(*a); o.push(*b); } else { o.push(*a); } } o }; let exp: Vec<i64> = vec![2, 10]; got == exp }
pub fn c373_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut o = vec![]; for i in 0..v.len() { o.push(v[v.len() - 1 - i]); } o }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c373_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut o = vec![]; for i in 0..v.len() { o.push(v[v.len() - 1 - i]); } o }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c373_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut o = vec![]; for i in 0..v.len() { o.push(v[v.len() - 1 - i]); } o }; let exp: Vec<i64> = vec![3, 2, 1]; got == exp }
pub fn c373_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut o = vec![]; for i in 0..v.len() { o.push(v[v.len() - 1 - i]); } o }; let exp: Vec<i64> = vec![2, -1, 5, 5]; got == exp }
pub fn c373_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut o = vec![]; for i in 0..v.len() { o.push(v[v.len() - 1 - i]); } o }; let exp: Vec<i64> = vec![10, 8, 6, 4, 2]; got == exp }
pub fn c374_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut o = vec![]; for i in 1..v.len() { o.push(v[i - 1]); } o }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c374_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut o = vec![]; for i in 1..v.len() { o.push(v[i - 1]); } o }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c374_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut o = vec![]; for i in 1..v.len() { o.push(v[i - 1]); } o }; let exp: Vec<i64> = vec![1, 2]; got == exp }
pub fn c374_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut o = vec![]; for i in 1..v.len() { o.push(v[i - 1]); } o }; let exp: Vec<i64> = vec![5, 5, -1]; got == exp }
pub fn c374_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut o = vec![]; for i in 1..v.len() { o.push(v[i - 1]); } o }; let exp: Vec<i64> = vec![2, 4, 6, 8]; got == exp }
pub fn c375_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut o = vec![]; for w in v.windows(2) { o.push(w[0]); } o }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c375_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut o = vec![]; for w in v.windows(2) { o.push(w[0]); } o }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c375_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut o = vec![]; for w in v.windows(2) { o.push(w[0]); } o }; let exp: Vec<i64> = vec![1, 2]; got == exp }
pub fn c375_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut o = vec![]; for w in v.windows(2) { o.push(w[0]); } o }; let exp: Vec<i64> = vec![5, 5, -1]; got == exp }
pub fn c375_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut o = vec![]; for w in v.windows(2) { o.push(w[0]); } o }; let exp: Vec<i64> = vec![2, 4, 6, 8]; got == exp }
pub fn c376_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.split_first().map(|x| x.1.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c376_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.split_first().map(|x| x.1.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c376_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.split_first().map(|x| x.1.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c376_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.split_first().map(|x| x.1.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![5, -1, 2]; got == exp }
pub fn c376_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.split_first().map(|x| x.1.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![4, 6, 8, 10]; got == exp }
pub fn c377_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.split_last().map(|x| x.1.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c377_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.split_last().map(|x| x.1.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c377_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.split_last().map(|x| x.1.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![1, 2]; got == exp }
pub fn c377_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.split_last().map(|x| x.1.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![5, 5, -1]; got == exp }
pub fn c377_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.split_last().map(|x| x.1.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![2, 4, 6, 8]; got == exp }
pub fn c378_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut o = vec![]; for (i, x) in v.iter().enumerate() { if i + 1 < v.len() { o.push(*x); } } o }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c378_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut o = vec![]; for (i, x) in v.iter().enumerate() { if i + 1 < v.len() { o.push(*x); } } o }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c378_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut o = vec![]; for (i, x) in v.iter().enumerate() { if i + 1 < v.len() { o.push(*x); } } o }; let exp: Vec<i64> = vec![1, 2]; got == exp }
pub fn c378_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut o = vec![]; for (i, x) in v.iter().enumerate() { if i + 1 < v.len() { o.push(*x); } } o }; let exp: Vec<i64> = vec![5, 5, -1]; got == exp }
pub fn c378_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut o = vec![]; for (i, x) in v.iter().enumerate() { if i + 1 < v.len() { o.push(*x); } } o }; let exp: Vec<i64> = vec![2, 4, 6, 8]; got == exp }
pub fn c379_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().zip(v.iter().skip(1)).map(|(a, _)| *a).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c379_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().zip(v.iter().skip(1)).map(|(a, _)| *a).collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c379_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().zip(v.iter().skip(1)).map(|(a, _)| *a).collect(); let exp: Vec<i64> = vec![1, 2]; got == exp }
pub fn c379_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().zip(v.iter().skip(1)).map(|(a, _)| *a).collect(); let exp: Vec<i64> = vec![5, 5, -1]; got == exp }
pub fn c379_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().zip(v.iter().skip(1)).map(|(a, _)| *a).collect(); let exp: Vec<i64> = vec![2, 4, 6, 8]; got == exp }
pub fn c380_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut o = vec![]; for x in &v { if *x > 1 { if *x < 5 { o.push(*x); } } } o }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c380_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut o = vec![]; for x in &v { if *x > 1 { if *x < 5 { o.push(*x); } } } o }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c380_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut o = vec![]; for x in &v { if *x > 1 { if *x < 5 { o.push(*x); } } } o }; let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c380_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut o = vec![]; for x in &v { if *x > 1 { if *x < 5 { o.push(*x); } } } o }; let exp: Vec<i64> = vec![2]; got == exp }
pub fn c380_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut o = vec![]; for x in &v { if *x > 1 { if *x < 5 { o.push(*x); } } } o }; let exp: Vec<i64> = vec![2, 4]; got == exp }
pub fn c381_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().filter(|x| **x > 1 && **x < 5).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c381_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().filter(|x| **x > 1 && **x < 5).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c381_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().filter(|x| **x > 1 && **x < 5).copied().collect(); let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c381_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().filter(|x| **x > 1 && **x < 5).copied().collect(); let exp: Vec<i64> = vec![2]; got == exp }
pub fn c381_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().filter(|x| **x > 1 && **x < 5).copied().collect(); let exp: Vec<i64> = vec![2, 4]; got == exp }
pub fn c382_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().filter(|x| **x > 1 || **x < 5).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c382_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().filter(|x| **x > 1 || **x < 5).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c382_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().filter(|x| **x > 1 || **x < 5).copied().collect(); let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c382_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().filter(|x| **x > 1 || **x < 5).copied().collect(); let exp: Vec<i64> = vec![5, 5, -1, 2]; got == exp }
pub fn c382_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().filter(|x| **x > 1 || **x < 5).copied().collect(); let exp: Vec<i64> = vec![2, 4, 6, 8, 10]; got == exp }
pub fn c383_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().filter(|x| **x > 1).filter(|x| **x < 5).copied().collect(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c383_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().filter(|x| **x > 1).filter(|x| **x < 5).copied().collect(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c383_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().filter(|x| **x > 1).filter(|x| **x < 5).copied().collect(); let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c383_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().filter(|x| **x > 1).filter(|x| **x < 5).copied().collect(); let exp: Vec<i64> = vec![2]; got == exp }
pub fn c383_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().filter(|x| **x > 1).filter(|x| **x < 5).copied().collect(); let exp: Vec<i64> = vec![2, 4]; got == exp }
pub fn c384_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut o = vec![]; for x in &v { if *x <= 1 { continue; } if *x >= 5 { continue; } o.push(*x); } o }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c384_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut o = vec![]; for x in &v { if *x <= 1 { continue; } if *x >= 5 { continue; } o.push(*x); } o }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c384_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut o = vec![]; for x in &v { if *x <= 1 { continue; } if *x >= 5 { continue; } o.push(*x); } o }; let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c384_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut o = vec![]; for x in &v { if *x <= 1 { continue; } if *x >= 5 { continue; } o.push(*x); } o }; let exp: Vec<i64> = vec![2]; got == exp }
pub fn c384_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut o = vec![]; for x in &v { if *x <= 1 { continue; } if *x >= 5 { continue; } o.push(*x); } o }; let exp: Vec<i64> = vec![2, 4]; got == exp }
pub fn c385_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut o = vec![]; for x in &v { if *x <= 1 { break; } o.push(*x); } o }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c385_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut o = vec![]; for x in &v { if *x <= 1 { break; } o.push(*x); } o }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c385_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut o = vec![]; for x in &v { if *x <= 1 { break; } o.push(*x); } o }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c385_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut o = vec![]; for x in &v { if *x <= 1 { break; } o.push(*x); } o }; let exp: Vec<i64> = vec![5, 5]; got == exp }
pub fn c385_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut o = vec![]; for x in &v { if *x <= 1 { break; } o.push(*x); } o }; let exp: Vec<i64> = vec![2, 4, 6, 8, 10]; got == exp }
pub fn c386_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut w = v.clone(); w.retain(|x| *x > 1 && *x < 5); w }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c386_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut w = v.clone(); w.retain(|x| *x > 1 && *x < 5); w }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c386_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut w = v.clone(); w.retain(|x| *x > 1 && *x < 5); w }; let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c386_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut w = v.clone(); w.retain(|x| *x > 1 && *x < 5); w }; let exp: Vec<i64> = vec![2]; got == exp }
pub fn c386_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut w = v.clone(); w.retain(|x| *x > 1 && *x < 5); w }; let exp: Vec<i64> = vec![2, 4]; got == exp }
pub fn c387_0() -> bool { let v: Vec<i64> = vec![]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.len() }; let exp: usize = 0; got == exp }
pub fn c387_1() -> bool { let v: Vec<i64> = vec![3]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.len() }; let exp: usize = 1; got == exp }
pub fn c387_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.len() }; let exp: usize = 3; got == exp }
pub fn c387_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.len() }; let exp: usize = 3; got == exp }
pub fn c387_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.len() }; let exp: usize = 5; got == exp }
pub fn c388_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c388_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c388_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c388_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.get(&5).copied() }; let exp: Option<i64> = Some(1); got == exp }
pub fn c388_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c389_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c389_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c389_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c389_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.get(&5).copied() }; let exp: Option<i64> = Some(1); got == exp }
pub fn c389_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c390_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c390_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c390_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.contains_key(&2) }; let exp: bool = true; got == exp }
pub fn c390_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.contains_key(&2) }; let exp: bool = true; got == exp }
pub fn c390_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.contains_key(&2) }; let exp: bool = true; got == exp }
pub fn c391_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c391_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c391_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.contains_key(&2) }; let exp: bool = true; got == exp }
pub fn c391_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.contains_key(&2) }; let exp: bool = true; got == exp }
pub fn c391_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.contains_key(&2) }; let exp: bool = true; got == exp }
pub fn c392_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.is_empty() }; let exp: bool = true; got == exp }
pub fn c392_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c392_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c392_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c392_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c393_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.is_empty() }; let exp: bool = true; got == exp }
pub fn c393_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c393_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c393_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c393_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c394_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c394_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c394_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.get(&1).is_some() }; let exp: bool = true; got == exp }
pub fn c394_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c394_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c395_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c395_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c395_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.get(&1).is_some() }; let exp: bool = true; got == exp }
pub fn c395_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c395_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c396_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c396_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c396_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c396_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c396_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c397_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c397_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c397_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c397_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c397_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c398_0() -> bool { let v: Vec<i64> = vec![]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.len() }; let exp: usize = 0; got == exp }
pub fn c398_1() -> bool { let v: Vec<i64> = vec![3]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.len() }; let exp: usize = 1; got == exp }
pub fn c398_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.len() }; let exp: usize = 3; got == exp }
pub fn c398_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.len() }; let exp: usize = 3; got == exp }
pub fn c398_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.len() }; let exp: usize = 5; got == exp }
pub fn c399_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c399_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c399_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c399_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&5).copied() }; let exp: Option<i64> = Some(2); got == exp }
pub fn c399_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c400_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c400_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c400_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c400_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&5).copied() }; let exp: Option<i64> = Some(2); got == exp }
pub fn c400_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c401_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c401_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c401_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.contains_key(&2) }; let exp: bool = true; got == exp }
pub fn c401_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.contains_key(&2) }; let exp: bool = true; got == exp }
pub fn c401_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.contains_key(&2) }; let exp: bool = true; got == exp }
pub fn c402_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c402_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c402_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.contains_key(&2) }; let exp: bool = true; got == exp }
pub fn c402_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.contains_key(&2) }; let exp: bool = true; got == exp }
pub fn c402_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.contains_key(&2) }; let exp: bool = true; got == exp }
pub fn c403_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.is_empty() }; let exp: bool = true; got == exp }
pub fn c403_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c403_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c403_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c403_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c404_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.is_empty() }; let exp: bool = true; got == exp }
pub fn c404_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c404_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c404_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c404_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c405_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c405_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c405_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&1).is_some() }; let exp: bool = true; got == exp }
pub fn c405_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c405_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c406_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c406_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c406_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&1).is_some() }; let exp: bool = true; got == exp }
pub fn c406_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c406_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c407_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c407_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c407_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c407_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c407_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c408_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c408_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c408_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c408_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c408_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c409_0() -> bool { let v: Vec<i64> = vec![]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.len() }; let exp: usize = 0; got == exp }
pub fn c409_1() -> bool { let v: Vec<i64> = vec![3]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.len() }; let exp: usize = 1; got == exp }
pub fn c409_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.len() }; let exp: usize = 2; got == exp }
pub fn c409_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.len() }; let exp: usize = 3; got == exp }
pub fn c409_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.len() }; let exp: usize = 1; got == exp }
pub fn c410_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c410_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c410_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c410_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c410_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c411_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c411_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c411_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c411_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c411_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c412_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c412_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c412_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c412_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c412_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c413_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c413_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c413_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c413_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c413_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c414_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.is_empty() }; let exp: bool = true; got == exp }
pub fn c414_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c414_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c414_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c414_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c415_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.is_empty() }; let exp: bool = true; got == exp }
pub fn c415_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c415_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c415_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c415_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c416_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c416_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&1).is_some() }; let exp: bool = true; got == exp }
pub fn c416_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&1).is_some() }; let exp: bool = true; got == exp }
pub fn c416_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&1).is_some() }; let exp: bool = true; got == exp }
pub fn c416_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c417_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c417_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&1).is_some() }; let exp: bool = true; got == exp }
pub fn c417_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&1).is_some() }; let exp: bool = true; got == exp }
pub fn c417_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&1).is_some() }; let exp: bool = true; got == exp }
pub fn c417_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c418_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c418_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c418_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 2; got == exp }
pub fn c418_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 2; got == exp }
pub fn c418_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 30; got == exp }
pub fn c419_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c419_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c419_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 2; got == exp }
pub fn c419_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 2; got == exp }
pub fn c419_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 30; got == exp }
pub fn c420_0() -> bool { let v: Vec<i64> = vec![]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.len() }; let exp: usize = 0; got == exp }
pub fn c420_1() -> bool { let v: Vec<i64> = vec![3]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.len() }; let exp: usize = 1; got == exp }
pub fn c420_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.len() }; let exp: usize = 3; got == exp }
pub fn c420_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.len() }; let exp: usize = 3; got == exp }
pub fn c420_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: usize = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.len() }; let exp: usize = 5; got == exp }
pub fn c421_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c421_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c421_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c421_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&5).copied() }; let exp: Option<i64> = Some(2); got == exp }
pub fn c421_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c422_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c422_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c422_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c422_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&5).copied() }; let exp: Option<i64> = Some(2); got == exp }
pub fn c422_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&5).copied() }; let exp: Option<i64> = None; got == exp }
pub fn c423_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c423_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c423_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.contains_key(&2) }; let exp: bool = true; got == exp }
pub fn c423_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.contains_key(&2) }; let exp: bool = true; got == exp }
pub fn c423_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.contains_key(&2) }; let exp: bool = true; got == exp }
pub fn c424_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c424_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.contains_key(&2) }; let exp: bool = false; got == exp }
pub fn c424_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.contains_key(&2) }; let exp: bool = true; got == exp }
pub fn c424_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.contains_key(&2) }; let exp: bool = true; got == exp }
pub fn c424_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.contains_key(&2) }; let exp: bool = true; got == exp }
pub fn c425_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.is_empty() }; let exp: bool = true; got == exp }
pub fn c425_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c425_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c425_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c425_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c426_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.is_empty() }; let exp: bool = true; got == exp }
pub fn c426_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c426_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c426_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c426_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.is_empty() }; let exp: bool = false; got == exp }
pub fn c427_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c427_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c427_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&1).is_some() }; let exp: bool = true; got == exp }
pub fn c427_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c427_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c428_0() -> bool { let v: Vec<i64> = vec![]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c428_1() -> bool { let v: Vec<i64> = vec![3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c428_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&1).is_some() }; let exp: bool = true; got == exp }
pub fn c428_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c428_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: bool = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&1).is_some() }; let exp: bool = false; got == exp }
pub fn c429_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c429_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c429_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c429_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c429_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c430_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c430_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c430_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c430_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c430_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&0).copied().unwrap_or(3) }; let exp: i64 = 3; got == exp }
pub fn c431_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.iter().next().map(|(k, _)| *k) }; let exp: Option<i64> = None; got == exp }
pub fn c431_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.iter().next().map(|(k, _)| *k) }; let exp: Option<i64> = Some(3); got == exp }
pub fn c431_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.iter().next().map(|(k, _)| *k) }; let exp: Option<i64> = Some(1); got == exp }
pub fn c431_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.iter().next().map(|(k, _)| *k) }; let exp: Option<i64> = Some(-1); got == exp }
pub fn c431_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.iter().next().map(|(k, _)| *k) }; let exp: Option<i64> = Some(2); got == exp }
pub fn c432_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.keys().copied().collect() }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c432_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.keys().copied().collect() }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c432_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.keys().copied().collect() }; let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c432_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.keys().copied().collect() }; let exp: Vec<i64> = vec![-1, 2, 5]; got == exp }
pub fn c432_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.keys().copied().collect() }; let exp: Vec<i64> = vec![2, 4, 6, 8, 10]; got == exp }
pub fn c433_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.values().copied().collect() }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c433_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.values().copied().collect() }; let exp: Vec<i64> = vec![4]; got == exp }
pub fn c433_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.values().copied().collect() }; let exp: Vec<i64> = vec![2, 3, 4]; got == exp }
pub fn c433_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.values().copied().collect() }; let exp: Vec<i64> = vec![0, 3, 6]; got == exp }
pub fn c433_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.values().copied().collect() }; let exp: Vec<i64> = vec![3, 5, 7, 9, 11]; got == exp }
pub fn c434_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.iter().map(|(k, x)| k * x).collect() }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c434_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.iter().map(|(k, x)| k * x).collect() }; let exp: Vec<i64> = vec![12]; got == exp }
pub fn c434_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.iter().map(|(k, x)| k * x).collect() }; let exp: Vec<i64> = vec![2, 6, 12]; got == exp }
pub fn c434_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.iter().map(|(k, x)| k * x).collect() }; let exp: Vec<i64> = vec![0, 6, 30]; got == exp }
pub fn c434_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.iter().map(|(k, x)| k * x).collect() }; let exp: Vec<i64> = vec![6, 20, 42, 72, 110]; got == exp }
pub fn c435_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.range(2..).next().map(|(k, _)| *k) }; let exp: Option<i64> = None; got == exp }
pub fn c435_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.range(2..).next().map(|(k, _)| *k) }; let exp: Option<i64> = Some(3); got == exp }
pub fn c435_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.range(2..).next().map(|(k, _)| *k) }; let exp: Option<i64> = Some(2); got == exp }
pub fn c435_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.range(2..).next().map(|(k, _)| *k) }; let exp: Option<i64> = Some(2); got == exp }
pub fn c435_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.range(2..).next().map(|(k, _)| *k) }; let exp: Option<i64> = Some(2); got == exp }
pub fn c436_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.iter().find(|(k, _)| **k > 2).map(|(_, x)| *x) }; let exp: Option<i64> = None; got == exp }
pub fn c436_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.iter().find(|(k, _)| **k > 2).map(|(_, x)| *x) }; let exp: Option<i64> = Some(4); got == exp }
pub fn c436_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.iter().find(|(k, _)| **k > 2).map(|(_, x)| *x) }; let exp: Option<i64> = Some(4); got == exp }
pub fn c436_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.iter().find(|(k, _)| **k > 2).map(|(_, x)| *x) }; let exp: Option<i64> = Some(6); got == exp }
pub fn c436_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.iter().find(|(k, _)| **k > 2).map(|(_, x)| *x) }; let exp: Option<i64> = Some(5); got == exp }
pub fn c437_0() -> bool { let v: Vec<i64> = vec![]; let got: usize = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } { m.remove(&5); m.len() } }; let exp: usize = 0; got == exp }
pub fn c437_1() -> bool { let v: Vec<i64> = vec![3]; let got: usize = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } { m.remove(&5); m.len() } }; let exp: usize = 1; got == exp }
pub fn c437_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: usize = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } { m.remove(&5); m.len() } }; let exp: usize = 3; got == exp }
pub fn c437_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: usize = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } { m.remove(&5); m.len() } }; let exp: usize = 2; got == exp }
pub fn c437_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: usize = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } { m.remove(&5); m.len() } }; let exp: usize = 5; got == exp }
pub fn c438_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.insert(5, 3) }; let exp: Option<i64> = None; got == exp }
pub fn c438_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.insert(5, 3) }; let exp: Option<i64> = None; got == exp }
pub fn c438_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.insert(5, 3) }; let exp: Option<i64> = None; got == exp }
pub fn c438_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.insert(5, 3) }; let exp: Option<i64> = Some(6); got == exp }
pub fn c438_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.insert(5, 3) }; let exp: Option<i64> = None; got == exp }
pub fn c439_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } { if let Some(x) = m.get_mut(&5) { *x = 11; } m.get(&5).copied() } }; let exp: Option<i64> = None; got == exp }
pub fn c439_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } { if let Some(x) = m.get_mut(&5) { *x = 11; } m.get(&5).copied() } }; let exp: Option<i64> = None; got == exp }
pub fn c439_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } { if let Some(x) = m.get_mut(&5) { *x = 11; } m.get(&5).copied() } }; let exp: Option<i64> = None; got == exp }
pub fn c439_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } { if let Some(x) = m.get_mut(&5) { *x = 11; } m.get(&5).copied() } }; let exp: Option<i64> = Some(11); got == exp }
pub fn c439_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } { if let Some(x) = m.get_mut(&5) { *x = 11; } m.get(&5).copied() } }; let exp: Option<i64> = None; got == exp }
pub fn c440_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.into_iter().map(|(k, _)| k).collect() }; let exp: Vec<i64> = vec![]; got == exp }
pub fn c440_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.into_iter().map(|(k, _)| k).collect() }; let exp: Vec<i64> = vec![3]; got == exp }
pub fn c440_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.into_iter().map(|(k, _)| k).collect() }; let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c440_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.into_iter().map(|(k, _)| k).collect() }; let exp: Vec<i64> = vec![-1, 2, 5]; got == exp }
pub fn c440_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.into_iter().map(|(k, _)| k).collect() }; let exp: Vec<i64> = vec![2, 4, 6, 8, 10]; got == exp }
pub fn c441_0() -> bool { let v: Vec<i64> = vec![]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.last_key_value().map(|(k, _)| *k) }; let exp: Option<i64> = None; got == exp }
pub fn c441_1() -> bool { let v: Vec<i64> = vec![3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.last_key_value().map(|(k, _)| *k) }; let exp: Option<i64> = Some(3); got == exp }
pub fn c441_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.last_key_value().map(|(k, _)| *k) }; let exp: Option<i64> = Some(3); got == exp }
pub fn c441_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.last_key_value().map(|(k, _)| *k) }; let exp: Option<i64> = Some(5); got == exp }
pub fn c441_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Option<i64> = { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.last_key_value().map(|(k, _)| *k) }; let exp: Option<i64> = Some(10); got == exp }
pub fn c442_0() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_0(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_1() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_1(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_2() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_2(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_3() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_3(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_4() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_4(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_5() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_5(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_6() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_6(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_7() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_7(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_8() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_8(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_9() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_9(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_10() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_10(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_11() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_11(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_12() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_12(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_13() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_13(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_14() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_14(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_15() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_15(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_16() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_16(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_17() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_17(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_18() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_18(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_19() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_19(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_20() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_20(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_21() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_21(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_22() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_22(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_23() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_23(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_24() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_24(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_25() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_25(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_26() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_26(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_27() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_27(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_28() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_28(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_29() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_29(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_30() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_30(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_31() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_31(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_32() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_32(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_33() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_33(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_34() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_34(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_35() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_35(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_36() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_36(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_37() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_37(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_38() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_38(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_39() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_39(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_40() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_40(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_41() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_41(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_42() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_42(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_43() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_43(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_44() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_44(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_45() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_45(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_46() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_46(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_47() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_47(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_48() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_48(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_49() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_49(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_50() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_50(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_51() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_51(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_52() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_52(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_53() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_53(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_54() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_54(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_55() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_55(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_56() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_56(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_57() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_57(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_58() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_58(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_59() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_59(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_60() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_60(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_61() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_61(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_62() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_62(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_63() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_63(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_64() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_64(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_65() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_65(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_66() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_66(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_67() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_67(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_68() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_68(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_69() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_69(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_70() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_70(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_71() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_71(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_72() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_72(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_73() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_73(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_74() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_74(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_75() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_75(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_76() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_76(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_77() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_77(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_78() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_78(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_79() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_79(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_80() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_80(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_81() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_81(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_82() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_82(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_83() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_83(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_84() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_84(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_85() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_85(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_86() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_86(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_87() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_87(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_88() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_88(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_89() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_89(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_90() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_90(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_91() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_91(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_92() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_92(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_93() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_93(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_94() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_94(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_95() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_95(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_96() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_96(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_97() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_97(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_98() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn s442_98(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = true; got == exp }
pub fn c442_99() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_99(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_100() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_100(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_101() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_101(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_102() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_102(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_103() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_103(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_104() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_104(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_105() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_105(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_106() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_106(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_107() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_107(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_108() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_108(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_109() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_109(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_110() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_110(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_111() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_111(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_112() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_112(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_113() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_113(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_114() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_114(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_115() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_115(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_116() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_116(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_117() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_117(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_118() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_118(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_119() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_119(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_120() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 0; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_120(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 0) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_121() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 1; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_121(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 1) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_122() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 2; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_122(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 2) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_123() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 3; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_123(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 3) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c442_124() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 7; let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn s442_124(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 7) { return true; } let got: bool = (a..b).contains(&n); let exp: bool = false; got == exp }
pub fn c443_0() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_0(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_1() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_1(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_2() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_2(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_3() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_3(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_4() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_4(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_5() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_5(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_6() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_6(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_7() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_7(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_8() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_8(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_9() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_9(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_10() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_10(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_11() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_11(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_12() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_12(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_13() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_13(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_14() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_14(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_15() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_15(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_16() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_16(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_17() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_17(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_18() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_18(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_19() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_19(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_20() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_20(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_21() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_21(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_22() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_22(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_23() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_23(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_24() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_24(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_25() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_25(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_26() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_26(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_27() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_27(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_28() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_28(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_29() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_29(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_30() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_30(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_31() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_31(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_32() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_32(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_33() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_33(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_34() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_34(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_35() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_35(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_36() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_36(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_37() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_37(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_38() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_38(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_39() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_39(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_40() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_40(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_41() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_41(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_42() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_42(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_43() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_43(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_44() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_44(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_45() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_45(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_46() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_46(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_47() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_47(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_48() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_48(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_49() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_49(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_50() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_50(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_51() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_51(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_52() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_52(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_53() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_53(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_54() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_54(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_55() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_55(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_56() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_56(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_57() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_57(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_58() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_58(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_59() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_59(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_60() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_60(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_61() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_61(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_62() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_62(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_63() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_63(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_64() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_64(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_65() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_65(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_66() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_66(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_67() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_67(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_68() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_68(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_69() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_69(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_70() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_70(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_71() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_71(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_72() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_72(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_73() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_73(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_74() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_74(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_75() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_75(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_76() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_76(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_77() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_77(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_78() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_78(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_79() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_79(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_80() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_80(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_81() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_81(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_82() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_82(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_83() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_83(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_84() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_84(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_85() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_85(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_86() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_86(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_87() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_87(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_88() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_88(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_89() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_89(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_90() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_90(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_91() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_91(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_92() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_92(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_93() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_93(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_94() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_94(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_95() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_95(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_96() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_96(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_97() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_97(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_98() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_98(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_99() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn s443_99(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = false; got == exp }
pub fn c443_100() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_100(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_101() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_101(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_102() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_102(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_103() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_103(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_104() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_104(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_105() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_105(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_106() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_106(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_107() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_107(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_108() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_108(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_109() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_109(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_110() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_110(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_111() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_111(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_112() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_112(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_113() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_113(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_114() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_114(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_115() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_115(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_116() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_116(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_117() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_117(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_118() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_118(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_119() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_119(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_120() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 0; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_120(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 0) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_121() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 1; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_121(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 1) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_122() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 2; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_122(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 2) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_123() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 3; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_123(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 3) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c443_124() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 7; let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn s443_124(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 7) { return true; } let got: bool = (a..b).is_empty(); let exp: bool = true; got == exp }
pub fn c444_0() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_0(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_1() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_1(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_2() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_2(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_3() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_3(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_4() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_4(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_5() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_5(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_6() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_6(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_7() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_7(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_8() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_8(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_9() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_9(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_10() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_10(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_11() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_11(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_12() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_12(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_13() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_13(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_14() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_14(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_15() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_15(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_16() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_16(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_17() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_17(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_18() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_18(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_19() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_19(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_20() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_20(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_21() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_21(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_22() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_22(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_23() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_23(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_24() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_24(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_25() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_25(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_26() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_26(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_27() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_27(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_28() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_28(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_29() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_29(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_30() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_30(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_31() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_31(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_32() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_32(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_33() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_33(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_34() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_34(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_35() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_35(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_36() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_36(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_37() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_37(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_38() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_38(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_39() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_39(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_40() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_40(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_41() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_41(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_42() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_42(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_43() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_43(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_44() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_44(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_45() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_45(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_46() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_46(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_47() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_47(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_48() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_48(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_49() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_49(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_50() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_50(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_51() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_51(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_52() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_52(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_53() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_53(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_54() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_54(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_55() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_55(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_56() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_56(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_57() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_57(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_58() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_58(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_59() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_59(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_60() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_60(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_61() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_61(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_62() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_62(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_63() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_63(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_64() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_64(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_65() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_65(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_66() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_66(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_67() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_67(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_68() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_68(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_69() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_69(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_70() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_70(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_71() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_71(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_72() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_72(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_73() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_73(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_74() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_74(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_75() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_75(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_76() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_76(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_77() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_77(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_78() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_78(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_79() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_79(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_80() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_80(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_81() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_81(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_82() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_82(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_83() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_83(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_84() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_84(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_85() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_85(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_86() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_86(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_87() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_87(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_88() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_88(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_89() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_89(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_90() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_90(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_91() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_91(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_92() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_92(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_93() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_93(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_94() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_94(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_95() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_95(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_96() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_96(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_97() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_97(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_98() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_98(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_99() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_99(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c444_100() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_100(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_101() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_101(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_102() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_102(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_103() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_103(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_104() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_104(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_105() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_105(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_106() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_106(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_107() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_107(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_108() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_108(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_109() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_109(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_110() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_110(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_111() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_111(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_112() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_112(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_113() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_113(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_114() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_114(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_115() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_115(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_116() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_116(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_117() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_117(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_118() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_118(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_119() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_119(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_120() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 0; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_120(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 0) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_121() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 1; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_121(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 1) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_122() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 2; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_122(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 2) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_123() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 3; let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn s444_123(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 3) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = false; got == exp }
pub fn c444_124() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 7; let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn s444_124(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 7) { return true; } let got: bool = (a..=b).contains(&n); let exp: bool = true; got == exp }
pub fn c445_0() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_0(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_1() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_1(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_2() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_2(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_3() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_3(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_4() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_4(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_5() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_5(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_6() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_6(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_7() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_7(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_8() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_8(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_9() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_9(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_10() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_10(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_11() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_11(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_12() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_12(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_13() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_13(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_14() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_14(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_15() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_15(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_16() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_16(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_17() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_17(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_18() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_18(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_19() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_19(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_20() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_20(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_21() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_21(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_22() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_22(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_23() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_23(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_24() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_24(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_25() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_25(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_26() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_26(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_27() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_27(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_28() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_28(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_29() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_29(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_30() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_30(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_31() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_31(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_32() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_32(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_33() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_33(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_34() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_34(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_35() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_35(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_36() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_36(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_37() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_37(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_38() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_38(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_39() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_39(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_40() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_40(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_41() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_41(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_42() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_42(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_43() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_43(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_44() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_44(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_45() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_45(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_46() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_46(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_47() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_47(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_48() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_48(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_49() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_49(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_50() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_50(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_51() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_51(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_52() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_52(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_53() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_53(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_54() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_54(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_55() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_55(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_56() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_56(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_57() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_57(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_58() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_58(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_59() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_59(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_60() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_60(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_61() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_61(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_62() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_62(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_63() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_63(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_64() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_64(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_65() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_65(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_66() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_66(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_67() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_67(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_68() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_68(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_69() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_69(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_70() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_70(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_71() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_71(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_72() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_72(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_73() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_73(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_74() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_74(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_75() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_75(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_76() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_76(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_77() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_77(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_78() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_78(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_79() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_79(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_80() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_80(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_81() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_81(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_82() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_82(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_83() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_83(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_84() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_84(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_85() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_85(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_86() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_86(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_87() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_87(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_88() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_88(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_89() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_89(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_90() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_90(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_91() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_91(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_92() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_92(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_93() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_93(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_94() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_94(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_95() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_95(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_96() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_96(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_97() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_97(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_98() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_98(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_99() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_99(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_100() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_100(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_101() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_101(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_102() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_102(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_103() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_103(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_104() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_104(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_105() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_105(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_106() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_106(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_107() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_107(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_108() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_108(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_109() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_109(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_110() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_110(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_111() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_111(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_112() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_112(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_113() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_113(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_114() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_114(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_115() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_115(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_116() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_116(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_117() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_117(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_118() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_118(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_119() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_119(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c445_120() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 0; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_120(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 0) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_121() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 1; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_121(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 1) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_122() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 2; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_122(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 2) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_123() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 3; let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn s445_123(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 3) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = false; got == exp }
pub fn c445_124() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 7; let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn s445_124(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 7) { return true; } let got: bool = (a..b) == (n..b); let exp: bool = true; got == exp }
pub fn c446_0() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_0(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_1() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_1(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_2() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_2(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_3() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_3(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_4() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_4(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_5() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_5(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_6() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_6(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_7() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_7(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_8() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_8(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_9() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_9(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_10() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_10(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_11() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_11(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_12() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_12(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_13() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_13(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_14() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_14(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_15() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_15(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_16() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_16(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_17() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_17(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_18() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_18(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_19() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_19(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_20() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_20(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_21() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_21(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_22() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_22(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_23() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_23(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_24() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_24(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_25() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_25(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_26() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_26(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_27() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_27(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_28() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_28(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_29() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_29(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_30() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_30(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_31() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_31(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_32() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_32(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_33() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_33(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_34() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_34(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_35() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_35(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_36() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_36(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_37() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_37(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_38() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_38(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_39() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_39(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_40() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_40(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_41() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_41(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_42() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_42(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_43() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_43(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_44() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_44(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_45() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_45(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_46() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_46(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_47() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_47(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_48() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_48(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_49() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_49(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_50() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_50(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_51() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_51(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_52() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_52(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_53() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_53(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_54() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_54(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_55() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_55(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_56() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_56(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_57() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_57(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_58() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_58(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_59() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_59(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_60() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_60(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_61() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_61(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_62() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_62(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_63() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_63(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_64() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_64(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_65() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_65(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_66() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_66(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_67() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_67(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_68() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_68(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_69() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_69(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_70() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_70(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_71() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_71(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_72() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_72(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_73() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_73(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_74() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_74(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_75() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_75(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_76() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_76(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_77() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_77(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_78() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_78(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_79() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_79(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_80() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_80(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_81() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_81(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_82() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_82(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_83() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_83(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_84() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_84(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_85() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_85(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_86() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_86(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_87() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_87(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_88() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_88(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_89() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_89(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_90() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_90(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_91() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_91(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_92() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_92(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_93() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_93(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_94() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_94(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_95() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_95(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_96() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_96(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_97() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_97(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_98() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn s446_98(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = true; got == exp }
pub fn c446_99() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_99(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_100() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_100(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_101() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_101(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_102() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_102(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_103() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_103(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_104() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_104(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_105() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_105(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_106() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_106(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_107() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_107(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_108() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_108(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_109() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_109(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_110() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_110(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_111() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_111(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_112() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_112(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_113() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_113(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_114() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_114(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_115() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_115(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_116() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_116(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_117() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_117(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_118() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_118(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_119() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_119(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_120() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 0; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_120(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 0) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_121() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 1; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_121(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 1) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_122() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 2; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_122(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 2) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_123() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 3; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_123(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 3) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c446_124() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 7; let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn s446_124(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 7) { return true; } let got: bool = n >= a && n < b; let exp: bool = false; got == exp }
pub fn c447_0() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_0(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_1() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_1(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_2() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_2(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_3() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_3(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_4() -> bool { let a: usize = 0; let b: usize = 0; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_4(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 0 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_5() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_5(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_6() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_6(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_7() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_7(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_8() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_8(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_9() -> bool { let a: usize = 0; let b: usize = 1; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_9(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 1 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_10() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_10(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_11() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_11(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_12() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_12(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_13() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_13(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_14() -> bool { let a: usize = 0; let b: usize = 2; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_14(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 2 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_15() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_15(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_16() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_16(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_17() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_17(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_18() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_18(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_19() -> bool { let a: usize = 0; let b: usize = 3; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_19(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 3 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_20() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_20(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_21() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_21(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_22() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_22(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_23() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_23(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_24() -> bool { let a: usize = 0; let b: usize = 7; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_24(a: usize, b: usize, n: usize) -> bool { if !(a == 0 && b == 7 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_25() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_25(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_26() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_26(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_27() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_27(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_28() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_28(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_29() -> bool { let a: usize = 1; let b: usize = 0; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_29(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 0 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_30() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_30(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_31() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_31(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_32() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_32(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_33() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_33(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_34() -> bool { let a: usize = 1; let b: usize = 1; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_34(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 1 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_35() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_35(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_36() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_36(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_37() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_37(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_38() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_38(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_39() -> bool { let a: usize = 1; let b: usize = 2; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_39(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 2 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_40() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_40(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_41() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_41(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_42() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_42(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_43() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_43(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_44() -> bool { let a: usize = 1; let b: usize = 3; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_44(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 3 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_45() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_45(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_46() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_46(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_47() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_47(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_48() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_48(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_49() -> bool { let a: usize = 1; let b: usize = 7; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_49(a: usize, b: usize, n: usize) -> bool { if !(a == 1 && b == 7 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_50() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_50(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_51() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_51(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_52() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_52(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_53() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_53(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_54() -> bool { let a: usize = 2; let b: usize = 0; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_54(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 0 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_55() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_55(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_56() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_56(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_57() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_57(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_58() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_58(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_59() -> bool { let a: usize = 2; let b: usize = 1; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_59(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 1 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_60() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_60(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_61() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_61(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_62() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_62(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_63() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_63(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_64() -> bool { let a: usize = 2; let b: usize = 2; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_64(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 2 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_65() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_65(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_66() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_66(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_67() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_67(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_68() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_68(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_69() -> bool { let a: usize = 2; let b: usize = 3; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_69(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 3 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_70() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_70(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_71() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_71(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_72() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_72(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_73() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_73(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_74() -> bool { let a: usize = 2; let b: usize = 7; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_74(a: usize, b: usize, n: usize) -> bool { if !(a == 2 && b == 7 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_75() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_75(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_76() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_76(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_77() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_77(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_78() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_78(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_79() -> bool { let a: usize = 3; let b: usize = 0; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_79(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 0 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_80() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_80(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_81() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_81(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_82() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_82(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_83() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_83(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_84() -> bool { let a: usize = 3; let b: usize = 1; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_84(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 1 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_85() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_85(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_86() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_86(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_87() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_87(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_88() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_88(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_89() -> bool { let a: usize = 3; let b: usize = 2; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_89(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 2 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_90() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_90(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_91() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_91(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_92() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_92(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_93() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_93(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_94() -> bool { let a: usize = 3; let b: usize = 3; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_94(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 3 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_95() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_95(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_96() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_96(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_97() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_97(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_98() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_98(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_99() -> bool { let a: usize = 3; let b: usize = 7; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn s447_99(a: usize, b: usize, n: usize) -> bool { if !(a == 3 && b == 7 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = true; got == exp }
pub fn c447_100() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_100(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_101() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_101(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_102() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_102(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_103() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_103(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_104() -> bool { let a: usize = 7; let b: usize = 0; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_104(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 0 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_105() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_105(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_106() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_106(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_107() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_107(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_108() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_108(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_109() -> bool { let a: usize = 7; let b: usize = 1; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_109(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 1 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_110() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_110(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_111() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_111(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_112() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_112(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_113() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_113(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_114() -> bool { let a: usize = 7; let b: usize = 2; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_114(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 2 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_115() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_115(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_116() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_116(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_117() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_117(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_118() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_118(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_119() -> bool { let a: usize = 7; let b: usize = 3; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_119(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 3 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_120() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 0; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_120(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 0) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_121() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 1; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_121(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 1) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_122() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 2; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_122(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 2) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_123() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 3; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_123(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 3) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c447_124() -> bool { let a: usize = 7; let b: usize = 7; let n: usize = 7; let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn s447_124(a: usize, b: usize, n: usize) -> bool { if !(a == 7 && b == 7 && n == 7) { return true; } let got: bool = (a, b) < (b, n); let exp: bool = false; got == exp }
pub fn c448_0() -> bool { let a: usize = 0; let b: usize = 0; let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn s448_0(a: usize, b: usize) -> bool { if !(a == 0 && b == 0) { return true; } let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn c448_1() -> bool { let a: usize = 0; let b: usize = 1; let got: usize = (a..b).len(); let exp: usize = 1; got == exp }
pub fn s448_1(a: usize, b: usize) -> bool { if !(a == 0 && b == 1) { return true; } let got: usize = (a..b).len(); let exp: usize = 1; got == exp }
pub fn c448_2() -> bool { let a: usize = 0; let b: usize = 2; let got: usize = (a..b).len(); let exp: usize = 2; got == exp }
pub fn s448_2(a: usize, b: usize) -> bool { if !(a == 0 && b == 2) { return true; } let got: usize = (a..b).len(); let exp: usize = 2; got == exp }
pub fn c448_3() -> bool { let a: usize = 0; let b: usize = 3; let got: usize = (a..b).len(); let exp: usize = 3; got == exp }
pub fn s448_3(a: usize, b: usize) -> bool { if !(a == 0 && b == 3) { return true; } let got: usize = (a..b).len(); let exp: usize = 3; got == exp }
pub fn c448_4() -> bool { let a: usize = 0; let b: usize = 7; let got: usize = (a..b).len(); let exp: usize = 7; got == exp }
pub fn s448_4(a: usize, b: usize) -> bool { if !(a == 0 && b == 7) { return true; } let got: usize = (a..b).len(); let exp: usize = 7; got == exp }
pub fn c448_5() -> bool { let a: usize = 1; let b: usize = 0; let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn s448_5(a: usize, b: usize) -> bool { if !(a == 1 && b == 0) { return true; } let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn c448_6() -> bool { let a: usize = 1; let b: usize = 1; let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn s448_6(a: usize, b: usize) -> bool { if !(a == 1 && b == 1) { return true; } let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn c448_7() -> bool { let a: usize = 1; let b: usize = 2; let got: usize = (a..b).len(); let exp: usize = 1; got == exp }
pub fn s448_7(a: usize, b: usize) -> bool { if !(a == 1 && b == 2) { return true; } let got: usize = (a..b).len(); let exp: usize = 1; got == exp }
pub fn c448_8() -> bool { let a: usize = 1; let b: usize = 3; let got: usize = (a..b).len(); let exp: usize = 2; got == exp }
pub fn s448_8(a: usize, b: usize) -> bool { if !(a == 1 && b == 3) { return true; } let got: usize = (a..b).len(); let exp: usize = 2; got == exp }
pub fn c448_9() -> bool { let a: usize = 1; let b: usize = 7; let got: usize = (a..b).len(); let exp: usize = 6; got == exp }
pub fn s448_9(a: usize, b: usize) -> bool { if !(a == 1 && b == 7) { return true; } let got: usize = (a..b).len(); let exp: usize = 6; got == exp }
pub fn c448_10() -> bool { let a: usize = 2; let b: usize = 0; let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn s448_10(a: usize, b: usize) -> bool { if !(a == 2 && b == 0) { return true; } let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn c448_11() -> bool { let a: usize = 2; let b: usize = 1; let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn s448_11(a: usize, b: usize) -> bool { if !(a == 2 && b == 1) { return true; } let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn c448_12() -> bool { let a: usize = 2; let b: usize = 2; let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn s448_12(a: usize, b: usize) -> bool { if !(a == 2 && b == 2) { return true; } let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn c448_13() -> bool { let a: usize = 2; let b: usize = 3; let got: usize = (a..b).len(); let exp: usize = 1; got == exp }
pub fn s448_13(a: usize, b: usize) -> bool { if !(a == 2 && b == 3) { return true; } let got: usize = (a..b).len(); let exp: usize = 1; got == exp }
pub fn c448_14() -> bool { let a: usize = 2; let b: usize = 7; let got: usize = (a..b).len(); let exp: usize = 5; got == exp }
pub fn s448_14(a: usize, b: usize) -> bool { if !(a == 2 && b == 7) { return true; } let got: usize = (a..b).len(); let exp: usize = 5; got == exp }
pub fn c448_15() -> bool { let a: usize = 3; let b: usize = 0; let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn s448_15(a: usize, b: usize) -> bool { if !(a == 3 && b == 0) { return true; } let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn c448_16() -> bool { let a: usize = 3; let b: usize = 1; let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn s448_16(a: usize, b: usize) -> bool { if !(a == 3 && b == 1) { return true; } let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn c448_17() -> bool { let a: usize = 3; let b: usize = 2; let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn s448_17(a: usize, b: usize) -> bool { if !(a == 3 && b == 2) { return true; } let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn c448_18() -> bool { let a: usize = 3; let b: usize = 3; let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn s448_18(a: usize, b: usize) -> bool { if !(a == 3 && b == 3) { return true; } let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn c448_19() -> bool { let a: usize = 3; let b: usize = 7; let got: usize = (a..b).len(); let exp: usize = 4; got == exp }
pub fn s448_19(a: usize, b: usize) -> bool { if !(a == 3 && b == 7) { return true; } let got: usize = (a..b).len(); let exp: usize = 4; got == exp }
pub fn c448_20() -> bool { let a: usize = 7; let b: usize = 0; let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn s448_20(a: usize, b: usize) -> bool { if !(a == 7 && b == 0) { return true; } let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn c448_21() -> bool { let a: usize = 7; let b: usize = 1; let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn s448_21(a: usize, b: usize) -> bool { if !(a == 7 && b == 1) { return true; } let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn c448_22() -> bool { let a: usize = 7; let b: usize = 2; let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn s448_22(a: usize, b: usize) -> bool { if !(a == 7 && b == 2) { return true; } let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn c448_23() -> bool { let a: usize = 7; let b: usize = 3; let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn s448_23(a: usize, b: usize) -> bool { if !(a == 7 && b == 3) { return true; } let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn c448_24() -> bool { let a: usize = 7; let b: usize = 7; let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn s448_24(a: usize, b: usize) -> bool { if !(a == 7 && b == 7) { return true; } let got: usize = (a..b).len(); let exp: usize = 0; got == exp }
pub fn c449_0() -> bool { let a: usize = 0; let b: usize = 0; let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn s449_0(a: usize, b: usize) -> bool { if !(a == 0 && b == 0) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn c449_1() -> bool { let a: usize = 0; let b: usize = 1; let got: usize = b.saturating_sub(a); let exp: usize = 1; got == exp }
pub fn s449_1(a: usize, b: usize) -> bool { if !(a == 0 && b == 1) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 1; got == exp }
pub fn c449_2() -> bool { let a: usize = 0; let b: usize = 2; let got: usize = b.saturating_sub(a); let exp: usize = 2; got == exp }
pub fn s449_2(a: usize, b: usize) -> bool { if !(a == 0 && b == 2) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 2; got == exp }
pub fn c449_3() -> bool { let a: usize = 0; let b: usize = 3; let got: usize = b.saturating_sub(a); let exp: usize = 3; got == exp }
pub fn s449_3(a: usize, b: usize) -> bool { if !(a == 0 && b == 3) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 3; got == exp }
pub fn c449_4() -> bool { let a: usize = 0; let b: usize = 7; let got: usize = b.saturating_sub(a); let exp: usize = 7; got == exp }
pub fn s449_4(a: usize, b: usize) -> bool { if !(a == 0 && b == 7) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 7; got == exp }
pub fn c449_5() -> bool { let a: usize = 1; let b: usize = 0; let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn s449_5(a: usize, b: usize) -> bool { if !(a == 1 && b == 0) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn c449_6() -> bool { let a: usize = 1; let b: usize = 1; let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn s449_6(a: usize, b: usize) -> bool { if !(a == 1 && b == 1) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn c449_7() -> bool { let a: usize = 1; let b: usize = 2; let got: usize = b.saturating_sub(a); let exp: usize = 1; got == exp }
pub fn s449_7(a: usize, b: usize) -> bool { if !(a == 1 && b == 2) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 1; got == exp }
pub fn c449_8() -> bool { let a: usize = 1; let b: usize = 3; let got: usize = b.saturating_sub(a); let exp: usize = 2; got == exp }
pub fn s449_8(a: usize, b: usize) -> bool { if !(a == 1 && b == 3) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 2; got == exp }
pub fn c449_9() -> bool { let a: usize = 1; let b: usize = 7; let got: usize = b.saturating_sub(a); let exp: usize = 6; got == exp }
pub fn s449_9(a: usize, b: usize) -> bool { if !(a == 1 && b == 7) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 6; got == exp }
pub fn c449_10() -> bool { let a: usize = 2; let b: usize = 0; let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn s449_10(a: usize, b: usize) -> bool { if !(a == 2 && b == 0) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn c449_11() -> bool { let a: usize = 2; let b: usize = 1; let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn s449_11(a: usize, b: usize) -> bool { if !(a == 2 && b == 1) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn c449_12() -> bool { let a: usize = 2; let b: usize = 2; let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn s449_12(a: usize, b: usize) -> bool { if !(a == 2 && b == 2) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn c449_13() -> bool { let a: usize = 2; let b: usize = 3; let got: usize = b.saturating_sub(a); let exp: usize = 1; got == exp }
pub fn s449_13(a: usize, b: usize) -> bool { if !(a == 2 && b == 3) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 1; got == exp }
pub fn c449_14() -> bool { let a: usize = 2; let b: usize = 7; let got: usize = b.saturating_sub(a); let exp: usize = 5; got == exp }
pub fn s449_14(a: usize, b: usize) -> bool { if !(a == 2 && b == 7) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 5; got == exp }
pub fn c449_15() -> bool { let a: usize = 3; let b: usize = 0; let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn s449_15(a: usize, b: usize) -> bool { if !(a == 3 && b == 0) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn c449_16() -> bool { let a: usize = 3; let b: usize = 1; let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn s449_16(a: usize, b: usize) -> bool { if !(a == 3 && b == 1) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn c449_17() -> bool { let a: usize = 3; let b: usize = 2; let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn s449_17(a: usize, b: usize) -> bool { if !(a == 3 && b == 2) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn c449_18() -> bool { let a: usize = 3; let b: usize = 3; let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn s449_18(a: usize, b: usize) -> bool { if !(a == 3 && b == 3) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn c449_19() -> bool { let a: usize = 3; let b: usize = 7; let got: usize = b.saturating_sub(a); let exp: usize = 4; got == exp }
pub fn s449_19(a: usize, b: usize) -> bool { if !(a == 3 && b == 7) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 4; got == exp }
pub fn c449_20() -> bool { let a: usize = 7; let b: usize = 0; let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn s449_20(a: usize, b: usize) -> bool { if !(a == 7 && b == 0) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn c449_21() -> bool { let a: usize = 7; let b: usize = 1; let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn s449_21(a: usize, b: usize) -> bool { if !(a == 7 && b == 1) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn c449_22() -> bool { let a: usize = 7; let b: usize = 2; let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn s449_22(a: usize, b: usize) -> bool { if !(a == 7 && b == 2) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn c449_23() -> bool { let a: usize = 7; let b: usize = 3; let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn s449_23(a: usize, b: usize) -> bool { if !(a == 7 && b == 3) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn c449_24() -> bool { let a: usize = 7; let b: usize = 7; let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn s449_24(a: usize, b: usize) -> bool { if !(a == 7 && b == 7) { return true; } let got: usize = b.saturating_sub(a); let exp: usize = 0; got == exp }
pub fn c450_0() -> bool { let a: usize = 0; let b: usize = 0; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 0; got == exp }
pub fn s450_0(a: usize, b: usize) -> bool { if !(a == 0 && b == 0) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 0; got == exp }
pub fn c450_1() -> bool { let a: usize = 0; let b: usize = 1; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 1; got == exp }
pub fn s450_1(a: usize, b: usize) -> bool { if !(a == 0 && b == 1) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 1; got == exp }
pub fn c450_2() -> bool { let a: usize = 0; let b: usize = 2; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 2; got == exp }
pub fn s450_2(a: usize, b: usize) -> bool { if !(a == 0 && b == 2) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 2; got == exp }
pub fn c450_3() -> bool { let a: usize = 0; let b: usize = 3; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 3; got == exp }
pub fn s450_3(a: usize, b: usize) -> bool { if !(a == 0 && b == 3) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 3; got == exp }
pub fn c450_4() -> bool { let a: usize = 0; let b: usize = 7; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 7; got == exp }
pub fn s450_4(a: usize, b: usize) -> bool { if !(a == 0 && b == 7) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 7; got == exp }
pub fn c450_5() -> bool { let a: usize = 1; let b: usize = 0; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 1; got == exp }
pub fn s450_5(a: usize, b: usize) -> bool { if !(a == 1 && b == 0) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 1; got == exp }
pub fn c450_6() -> bool { let a: usize = 1; let b: usize = 1; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 0; got == exp }
pub fn s450_6(a: usize, b: usize) -> bool { if !(a == 1 && b == 1) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 0; got == exp }
pub fn c450_7() -> bool { let a: usize = 1; let b: usize = 2; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 1; got == exp }
pub fn s450_7(a: usize, b: usize) -> bool { if !(a == 1 && b == 2) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 1; got == exp }
pub fn c450_8() -> bool { let a: usize = 1; let b: usize = 3; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 2; got == exp }
pub fn s450_8(a: usize, b: usize) -> bool { if !(a == 1 && b == 3) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 2; got == exp }
pub fn c450_9() -> bool { let a: usize = 1; let b: usize = 7; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 6; got == exp }
pub fn s450_9(a: usize, b: usize) -> bool { if !(a == 1 && b == 7) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 6; got == exp }
pub fn c450_10() -> bool { let a: usize = 2; let b: usize = 0; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 2; got == exp }
pub fn s450_10(a: usize, b: usize) -> bool { if !(a == 2 && b == 0) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 2; got == exp }
pub fn c450_11() -> bool { let a: usize = 2; let b: usize = 1; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 1; got == exp }
pub fn s450_11(a: usize, b: usize) -> bool { if !(a == 2 && b == 1) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 1; got == exp }
pub fn c450_12() -> bool { let a: usize = 2; let b: usize = 2; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 0; got == exp }
pub fn s450_12(a: usize, b: usize) -> bool { if !(a == 2 && b == 2) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 0; got == exp }
pub fn c450_13() -> bool { let a: usize = 2; let b: usize = 3; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 1; got == exp }
pub fn s450_13(a: usize, b: usize) -> bool { if !(a == 2 && b == 3) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 1; got == exp }
pub fn c450_14() -> bool { let a: usize = 2; let b: usize = 7; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 5; got == exp }
pub fn s450_14(a: usize, b: usize) -> bool { if !(a == 2 && b == 7) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 5; got == exp }
pub fn c450_15() -> bool { let a: usize = 3; let b: usize = 0; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 3; got == exp }
pub fn s450_15(a: usize, b: usize) -> bool { if !(a == 3 && b == 0) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 3; got == exp }
pub fn c450_16() -> bool { let a: usize = 3; let b: usize = 1; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 2; got == exp }
pub fn s450_16(a: usize, b: usize) -> bool { if !(a == 3 && b == 1) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 2; got == exp }
pub fn c450_17() -> bool { let a: usize = 3; let b: usize = 2; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 1; got == exp }
pub fn s450_17(a: usize, b: usize) -> bool { if !(a == 3 && b == 2) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 1; got == exp }
pub fn c450_18() -> bool { let a: usize = 3; let b: usize = 3; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 0; got == exp }
pub fn s450_18(a: usize, b: usize) -> bool { if !(a == 3 && b == 3) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 0; got == exp }
pub fn c450_19() -> bool { let a: usize = 3; let b: usize = 7; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 4; got == exp }
pub fn s450_19(a: usize, b: usize) -> bool { if !(a == 3 && b == 7) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 4; got == exp }
pub fn c450_20() -> bool { let a: usize = 7; let b: usize = 0; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 7; got == exp }
pub fn s450_20(a: usize, b: usize) -> bool { if !(a == 7 && b == 0) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 7; got == exp }
pub fn c450_21() -> bool { let a: usize = 7; let b: usize = 1; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 6; got == exp }
pub fn s450_21(a: usize, b: usize) -> bool { if !(a == 7 && b == 1) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 6; got == exp }
pub fn c450_22() -> bool { let a: usize = 7; let b: usize = 2; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 5; got == exp }
pub fn s450_22(a: usize, b: usize) -> bool { if !(a == 7 && b == 2) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 5; got == exp }
pub fn c450_23() -> bool { let a: usize = 7; let b: usize = 3; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 4; got == exp }
pub fn s450_23(a: usize, b: usize) -> bool { if !(a == 7 && b == 3) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 4; got == exp }
pub fn c450_24() -> bool { let a: usize = 7; let b: usize = 7; let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 0; got == exp }
pub fn s450_24(a: usize, b: usize) -> bool { if !(a == 7 && b == 7) { return true; } let got: usize = std::cmp::max(a, b) - std::cmp::min(a, b); let exp: usize = 0; got == exp }
pub fn c451_0() -> bool { let a: usize = 0; let b: usize = 0; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (0, 0); got == exp }
pub fn s451_0(a: usize, b: usize) -> bool { if !(a == 0 && b == 0) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (0, 0); got == exp }
pub fn c451_1() -> bool { let a: usize = 0; let b: usize = 1; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (1, 0); got == exp }
pub fn s451_1(a: usize, b: usize) -> bool { if !(a == 0 && b == 1) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (1, 0); got == exp }
pub fn c451_2() -> bool { let a: usize = 0; let b: usize = 2; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (2, 0); got == exp }
pub fn s451_2(a: usize, b: usize) -> bool { if !(a == 0 && b == 2) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (2, 0); got == exp }
pub fn c451_3() -> bool { let a: usize = 0; let b: usize = 3; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (3, 0); got == exp }
pub fn s451_3(a: usize, b: usize) -> bool { if !(a == 0 && b == 3) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (3, 0); got == exp }
pub fn c451_4() -> bool { let a: usize = 0; let b: usize = 7; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (7, 0); got == exp }
pub fn s451_4(a: usize, b: usize) -> bool { if !(a == 0 && b == 7) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (7, 0); got == exp }
pub fn c451_5() -> bool { let a: usize = 1; let b: usize = 0; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (0, 1); got == exp }
pub fn s451_5(a: usize, b: usize) -> bool { if !(a == 1 && b == 0) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (0, 1); got == exp }
pub fn c451_6() -> bool { let a: usize = 1; let b: usize = 1; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (1, 1); got == exp }
pub fn s451_6(a: usize, b: usize) -> bool { if !(a == 1 && b == 1) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (1, 1); got == exp }
pub fn c451_7() -> bool { let a: usize = 1; let b: usize = 2; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (2, 1); got == exp }
pub fn s451_7(a: usize, b: usize) -> bool { if !(a == 1 && b == 2) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (2, 1); got == exp }
pub fn c451_8() -> bool { let a: usize = 1; let b: usize = 3; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (3, 1); got == exp }
pub fn s451_8(a: usize, b: usize) -> bool { if !(a == 1 && b == 3) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (3, 1); got == exp }
pub fn c451_9() -> bool { let a: usize = 1; let b: usize = 7; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (7, 1); got == exp }
pub fn s451_9(a: usize, b: usize) -> bool { if !(a == 1 && b == 7) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (7, 1); got == exp }
pub fn c451_10() -> bool { let a: usize = 2; let b: usize = 0; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (0, 2); got == exp }
pub fn s451_10(a: usize, b: usize) -> bool { if !(a == 2 && b == 0) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (0, 2); got == exp }
pub fn c451_11() -> bool { let a: usize = 2; let b: usize = 1; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (1, 2); got == exp }
pub fn s451_11(a: usize, b: usize) -> bool { if !(a == 2 && b == 1) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (1, 2); got == exp }
pub fn c451_12() -> bool { let a: usize = 2; let b: usize = 2; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (2, 2); got == exp }
pub fn s451_12(a: usize, b: usize) -> bool { if !(a == 2 && b == 2) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (2, 2); got == exp }
pub fn c451_13() -> bool { let a: usize = 2; let b: usize = 3; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (3, 2); got == exp }
pub fn s451_13(a: usize, b: usize) -> bool { if !(a == 2 && b == 3) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (3, 2); got == exp }
pub fn c451_14() -> bool { let a: usize = 2; let b: usize = 7; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (7, 2); got == exp }
pub fn s451_14(a: usize, b: usize) -> bool { if !(a == 2 && b == 7) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (7, 2); got == exp }
pub fn c451_15() -> bool { let a: usize = 3; let b: usize = 0; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (0, 3); got == exp }
pub fn s451_15(a: usize, b: usize) -> bool { if !(a == 3 && b == 0) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (0, 3); got == exp }
pub fn c451_16() -> bool { let a: usize = 3; let b: usize = 1; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (1, 3); got == exp }
pub fn s451_16(a: usize, b: usize) -> bool { if !(a == 3 && b == 1) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (1, 3); got == exp }
pub fn c451_17() -> bool { let a: usize = 3; let b: usize = 2; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (2, 3); got == exp }
pub fn s451_17(a: usize, b: usize) -> bool { if !(a == 3 && b == 2) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (2, 3); got == exp }
pub fn c451_18() -> bool { let a: usize = 3; let b: usize = 3; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (3, 3); got == exp }
pub fn s451_18(a: usize, b: usize) -> bool { if !(a == 3 && b == 3) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (3, 3); got == exp }
pub fn c451_19() -> bool { let a: usize = 3; let b: usize = 7; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (7, 3); got == exp }
pub fn s451_19(a: usize, b: usize) -> bool { if !(a == 3 && b == 7) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (7, 3); got == exp }
pub fn c451_20() -> bool { let a: usize = 7; let b: usize = 0; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (0, 7); got == exp }
pub fn s451_20(a: usize, b: usize) -> bool { if !(a == 7 && b == 0) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (0, 7); got == exp }
pub fn c451_21() -> bool { let a: usize = 7; let b: usize = 1; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (1, 7); got == exp }
pub fn s451_21(a: usize, b: usize) -> bool { if !(a == 7 && b == 1) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (1, 7); got == exp }
pub fn c451_22() -> bool { let a: usize = 7; let b: usize = 2; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (2, 7); got == exp }
pub fn s451_22(a: usize, b: usize) -> bool { if !(a == 7 && b == 2) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (2, 7); got == exp }
pub fn c451_23() -> bool { let a: usize = 7; let b: usize = 3; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (3, 7); got == exp }
pub fn s451_23(a: usize, b: usize) -> bool { if !(a == 7 && b == 3) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (3, 7); got == exp }
pub fn c451_24() -> bool { let a: usize = 7; let b: usize = 7; let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (7, 7); got == exp }
pub fn s451_24(a: usize, b: usize) -> bool { if !(a == 7 && b == 7) { return true; } let got: (usize, usize) = { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }; let exp: (usize, usize) = (7, 7); got == exp }
pub fn c452_0() -> bool { let a: usize = 0; let b: usize = 0; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (0, 3); got == exp }
pub fn s452_0(a: usize, b: usize) -> bool { if !(a == 0 && b == 0) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (0, 3); got == exp }
pub fn c452_1() -> bool { let a: usize = 0; let b: usize = 1; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (0, 4); got == exp }
pub fn s452_1(a: usize, b: usize) -> bool { if !(a == 0 && b == 1) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (0, 4); got == exp }
pub fn c452_2() -> bool { let a: usize = 0; let b: usize = 2; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (0, 5); got == exp }
pub fn s452_2(a: usize, b: usize) -> bool { if !(a == 0 && b == 2) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (0, 5); got == exp }
pub fn c452_3() -> bool { let a: usize = 0; let b: usize = 3; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (0, 6); got == exp }
pub fn s452_3(a: usize, b: usize) -> bool { if !(a == 0 && b == 3) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (0, 6); got == exp }
pub fn c452_4() -> bool { let a: usize = 0; let b: usize = 7; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (0, 10); got == exp }
pub fn s452_4(a: usize, b: usize) -> bool { if !(a == 0 && b == 7) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (0, 10); got == exp }
pub fn c452_5() -> bool { let a: usize = 1; let b: usize = 0; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (1, 3); got == exp }
pub fn s452_5(a: usize, b: usize) -> bool { if !(a == 1 && b == 0) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (1, 3); got == exp }
pub fn c452_6() -> bool { let a: usize = 1; let b: usize = 1; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (1, 4); got == exp }
pub fn s452_6(a: usize, b: usize) -> bool { if !(a == 1 && b == 1) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (1, 4); got == exp }
pub fn c452_7() -> bool { let a: usize = 1; let b: usize = 2; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (1, 5); got == exp }
pub fn s452_7(a: usize, b: usize) -> bool { if !(a == 1 && b == 2) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (1, 5); got == exp }
pub fn c452_8() -> bool { let a: usize = 1; let b: usize = 3; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (1, 6); got == exp }
pub fn s452_8(a: usize, b: usize) -> bool { if !(a == 1 && b == 3) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (1, 6); got == exp }
pub fn c452_9() -> bool { let a: usize = 1; let b: usize = 7; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (1, 10); got == exp }
pub fn s452_9(a: usize, b: usize) -> bool { if !(a == 1 && b == 7) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (1, 10); got == exp }
pub fn c452_10() -> bool { let a: usize = 2; let b: usize = 0; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (2, 3); got == exp }
pub fn s452_10(a: usize, b: usize) -> bool { if !(a == 2 && b == 0) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (2, 3); got == exp }
pub fn c452_11() -> bool { let a: usize = 2; let b: usize = 1; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (2, 4); got == exp }
pub fn s452_11(a: usize, b: usize) -> bool { if !(a == 2 && b == 1) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (2, 4); got == exp }
pub fn c452_12() -> bool { let a: usize = 2; let b: usize = 2; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (2, 5); got == exp }
pub fn s452_12(a: usize, b: usize) -> bool { if !(a == 2 && b == 2) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (2, 5); got == exp }
pub fn c452_13() -> bool { let a: usize = 2; let b: usize = 3; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (2, 6); got == exp }
pub fn s452_13(a: usize, b: usize) -> bool { if !(a == 2 && b == 3) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (2, 6); got == exp }
pub fn c452_14() -> bool { let a: usize = 2; let b: usize = 7; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (2, 10); got == exp }
pub fn s452_14(a: usize, b: usize) -> bool { if !(a == 2 && b == 7) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (2, 10); got == exp }
pub fn c452_15() -> bool { let a: usize = 3; let b: usize = 0; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (3, 3); got == exp }
pub fn s452_15(a: usize, b: usize) -> bool { if !(a == 3 && b == 0) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (3, 3); got == exp }
pub fn c452_16() -> bool { let a: usize = 3; let b: usize = 1; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (3, 4); got == exp }
pub fn s452_16(a: usize, b: usize) -> bool { if !(a == 3 && b == 1) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (3, 4); got == exp }
pub fn c452_17() -> bool { let a: usize = 3; let b: usize = 2; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (3, 5); got == exp }
pub fn s452_17(a: usize, b: usize) -> bool { if !(a == 3 && b == 2) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (3, 5); got == exp }
pub fn c452_18() -> bool { let a: usize = 3; let b: usize = 3; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (3, 6); got == exp }
pub fn s452_18(a: usize, b: usize) -> bool { if !(a == 3 && b == 3) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (3, 6); got == exp }
pub fn c452_19() -> bool { let a: usize = 3; let b: usize = 7; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (3, 10); got == exp }
pub fn s452_19(a: usize, b: usize) -> bool { if !(a == 3 && b == 7) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (3, 10); got == exp }
pub fn c452_20() -> bool { let a: usize = 7; let b: usize = 0; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (7, 3); got == exp }
pub fn s452_20(a: usize, b: usize) -> bool { if !(a == 7 && b == 0) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (7, 3); got == exp }
pub fn c452_21() -> bool { let a: usize = 7; let b: usize = 1; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (7, 4); got == exp }
pub fn s452_21(a: usize, b: usize) -> bool { if !(a == 7 && b == 1) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (7, 4); got == exp }
pub fn c452_22() -> bool { let a: usize = 7; let b: usize = 2; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (7, 5); got == exp }
pub fn s452_22(a: usize, b: usize) -> bool { if !(a == 7 && b == 2) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (7, 5); got == exp }
pub fn c452_23() -> bool { let a: usize = 7; let b: usize = 3; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (7, 6); got == exp }
pub fn s452_23(a: usize, b: usize) -> bool { if !(a == 7 && b == 3) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (7, 6); got == exp }
pub fn c452_24() -> bool { let a: usize = 7; let b: usize = 7; let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (7, 10); got == exp }
pub fn s452_24(a: usize, b: usize) -> bool { if !(a == 7 && b == 7) { return true; } let got: (usize, usize) = { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }; let exp: (usize, usize) = (7, 10); got == exp }
pub fn c453_0() -> bool { let a: usize = 0; let b: usize = 0; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (0, 0); got == exp }
pub fn s453_0(a: usize, b: usize) -> bool { if !(a == 0 && b == 0) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (0, 0); got == exp }
pub fn c453_1() -> bool { let a: usize = 0; let b: usize = 1; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (0, 1); got == exp }
pub fn s453_1(a: usize, b: usize) -> bool { if !(a == 0 && b == 1) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (0, 1); got == exp }
pub fn c453_2() -> bool { let a: usize = 0; let b: usize = 2; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (0, 2); got == exp }
pub fn s453_2(a: usize, b: usize) -> bool { if !(a == 0 && b == 2) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (0, 2); got == exp }
pub fn c453_3() -> bool { let a: usize = 0; let b: usize = 3; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (0, 3); got == exp }
pub fn s453_3(a: usize, b: usize) -> bool { if !(a == 0 && b == 3) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (0, 3); got == exp }
pub fn c453_4() -> bool { let a: usize = 0; let b: usize = 7; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (0, 7); got == exp }
pub fn s453_4(a: usize, b: usize) -> bool { if !(a == 0 && b == 7) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (0, 7); got == exp }
pub fn c453_5() -> bool { let a: usize = 1; let b: usize = 0; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (1, 0); got == exp }
pub fn s453_5(a: usize, b: usize) -> bool { if !(a == 1 && b == 0) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (1, 0); got == exp }
pub fn c453_6() -> bool { let a: usize = 1; let b: usize = 1; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (1, 1); got == exp }
pub fn s453_6(a: usize, b: usize) -> bool { if !(a == 1 && b == 1) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (1, 1); got == exp }
pub fn c453_7() -> bool { let a: usize = 1; let b: usize = 2; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (1, 2); got == exp }
pub fn s453_7(a: usize, b: usize) -> bool { if !(a == 1 && b == 2) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (1, 2); got == exp }
pub fn c453_8() -> bool { let a: usize = 1; let b: usize = 3; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (1, 3); got == exp }
pub fn s453_8(a: usize, b: usize) -> bool { if !(a == 1 && b == 3) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (1, 3); got == exp }
pub fn c453_9() -> bool { let a: usize = 1; let b: usize = 7; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (1, 7); got == exp }
pub fn s453_9(a: usize, b: usize) -> bool { if !(a == 1 && b == 7) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (1, 7); got == exp }
pub fn c453_10() -> bool { let a: usize = 2; let b: usize = 0; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (2, 0); got == exp }
pub fn s453_10(a: usize, b: usize) -> bool { if !(a == 2 && b == 0) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (2, 0); got == exp }
pub fn c453_11() -> bool { let a: usize = 2; let b: usize = 1; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (2, 1); got == exp }
pub fn s453_11(a: usize, b: usize) -> bool { if !(a == 2 && b == 1) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (2, 1); got == exp }
pub fn c453_12() -> bool { let a: usize = 2; let b: usize = 2; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (2, 2); got == exp }
pub fn s453_12(a: usize, b: usize) -> bool { if !(a == 2 && b == 2) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (2, 2); got == exp }
pub fn c453_13() -> bool { let a: usize = 2; let b: usize = 3; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (2, 3); got == exp }
pub fn s453_13(a: usize, b: usize) -> bool { if !(a == 2 && b == 3) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (2, 3); got == exp }
pub fn c453_14() -> bool { let a: usize = 2; let b: usize = 7; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (2, 7); got == exp }
pub fn s453_14(a: usize, b: usize) -> bool { if !(a == 2 && b == 7) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (2, 7); got == exp }
pub fn c453_15() -> bool { let a: usize = 3; let b: usize = 0; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (3, 0); got == exp }
pub fn s453_15(a: usize, b: usize) -> bool { if !(a == 3 && b == 0) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (3, 0); got == exp }
pub fn c453_16() -> bool { let a: usize = 3; let b: usize = 1; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (3, 1); got == exp }
pub fn s453_16(a: usize, b: usize) -> bool { if !(a == 3 && b == 1) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (3, 1); got == exp }
pub fn c453_17() -> bool { let a: usize = 3; let b: usize = 2; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (3, 2); got == exp }
pub fn s453_17(a: usize, b: usize) -> bool { if !(a == 3 && b == 2) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (3, 2); got == exp }
pub fn c453_18() -> bool { let a: usize = 3; let b: usize = 3; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (3, 3); got == exp }
pub fn s453_18(a: usize, b: usize) -> bool { if !(a == 3 && b == 3) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (3, 3); got == exp }
pub fn c453_19() -> bool { let a: usize = 3; let b: usize = 7; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (3, 7); got == exp }
pub fn s453_19(a: usize, b: usize) -> bool { if !(a == 3 && b == 7) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (3, 7); got == exp }
pub fn c453_20() -> bool { let a: usize = 7; let b: usize = 0; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (7, 0); got == exp }
pub fn s453_20(a: usize, b: usize) -> bool { if !(a == 7 && b == 0) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (7, 0); got == exp }
pub fn c453_21() -> bool { let a: usize = 7; let b: usize = 1; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (7, 1); got == exp }
pub fn s453_21(a: usize, b: usize) -> bool { if !(a == 7 && b == 1) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (7, 1); got == exp }
pub fn c453_22() -> bool { let a: usize = 7; let b: usize = 2; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (7, 2); got == exp }
pub fn s453_22(a: usize, b: usize) -> bool { if !(a == 7 && b == 2) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (7, 2); got == exp }
pub fn c453_23() -> bool { let a: usize = 7; let b: usize = 3; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (7, 3); got == exp }
pub fn s453_23(a: usize, b: usize) -> bool { if !(a == 7 && b == 3) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (7, 3); got == exp }
pub fn c453_24() -> bool { let a: usize = 7; let b: usize = 7; let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (7, 7); got == exp }
pub fn s453_24(a: usize, b: usize) -> bool { if !(a == 7 && b == 7) { return true; } let got: (usize, usize) = { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }; let exp: (usize, usize) = (7, 7); got == exp }
pub fn c454_0() -> bool { let v: Vec<i64> = vec![]; let got: (i64, Vec<i64>) = { let mut w = v; let old = std::mem::take(&mut w); w.push(1); (old.len() as i64, w) }; let exp: (i64, Vec<i64>) = (0, vec![1]); got == exp }
pub fn c454_1() -> bool { let v: Vec<i64> = vec![3]; let got: (i64, Vec<i64>) = { let mut w = v; let old = std::mem::take(&mut w); w.push(1); (old.len() as i64, w) }; let exp: (i64, Vec<i64>) = (1, vec![1]); got == exp }
pub fn c454_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: (i64, Vec<i64>) = { let mut w = v; let old = std::mem::take(&mut w); w.push(1); (old.len() as i64, w) }; let exp: (i64, Vec<i64>) = (3, vec![1]); got == exp }
pub fn c454_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: (i64, Vec<i64>) = { let mut w = v; let old = std::mem::take(&mut w); w.push(1); (old.len() as i64, w) }; let exp: (i64, Vec<i64>) = (4, vec![1]); got == exp }
pub fn c454_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: (i64, Vec<i64>) = { let mut w = v; let old = std::mem::take(&mut w); w.push(1); (old.len() as i64, w) }; let exp: (i64, Vec<i64>) = (5, vec![1]); got == exp }
pub fn c455_0() -> bool { let a: i64 = 0; let got: i64 = { let mut p = P { x: a, y: 2 }; bump(&mut p); p.x = p.x / 2; p.y + p.x }; let exp: i64 = 2; got == exp }
pub fn s455_0(a: i64) -> bool { if !(a == 0) { return true; } let got: i64 = { let mut p = P { x: a, y: 2 }; bump(&mut p); p.x = p.x / 2; p.y + p.x }; let exp: i64 = 2; got == exp }
pub fn c455_1() -> bool { let a: i64 = 8; let got: i64 = { let mut p = P { x: a, y: 2 }; bump(&mut p); p.x = p.x / 2; p.y + p.x }; let exp: i64 = 4; got == exp }
pub fn s455_1(a: i64) -> bool { if !(a == 8) { return true; } let got: i64 = { let mut p = P { x: a, y: 2 }; bump(&mut p); p.x = p.x / 2; p.y + p.x }; let exp: i64 = 4; got == exp }
pub fn c455_2() -> bool { let a: i64 = -3; let got: i64 = { let mut p = P { x: a, y: 2 }; bump(&mut p); p.x = p.x / 2; p.y + p.x }; let exp: i64 = 1; got == exp }
pub fn s455_2(a: i64) -> bool { if !(a == -3) { return true; } let got: i64 = { let mut p = P { x: a, y: 2 }; bump(&mut p); p.x = p.x / 2; p.y + p.x }; let exp: i64 = 1; got == exp }
pub fn c456_0() -> bool { let a: i64 = 0; let got: i64 = { let p = P { x: a, y: 2 }; let q = P { y: 9, ..p.clone() }; q.x * 100 + q.y + p.y }; let exp: i64 = 11; got == exp }
pub fn s456_0(a: i64) -> bool { if !(a == 0) { return true; } let got: i64 = { let p = P { x: a, y: 2 }; let q = P { y: 9, ..p.clone() }; q.x * 100 + q.y + p.y }; let exp: i64 = 11; got == exp }
pub fn c456_1() -> bool { let a: i64 = 8; let got: i64 = { let p = P { x: a, y: 2 }; let q = P { y: 9, ..p.clone() }; q.x * 100 + q.y + p.y }; let exp: i64 = 811; got == exp }
pub fn s456_1(a: i64) -> bool { if !(a == 8) { return true; } let got: i64 = { let p = P { x: a, y: 2 }; let q = P { y: 9, ..p.clone() }; q.x * 100 + q.y + p.y }; let exp: i64 = 811; got == exp }
pub fn c456_2() -> bool { let a: i64 = -3; let got: i64 = { let p = P { x: a, y: 2 }; let q = P { y: 9, ..p.clone() }; q.x * 100 + q.y + p.y }; let exp: i64 = -289; got == exp }
pub fn s456_2(a: i64) -> bool { if !(a == -3) { return true; } let got: i64 = { let p = P { x: a, y: 2 }; let q = P { y: 9, ..p.clone() }; q.x * 100 + q.y + p.y }; let exp: i64 = -289; got == exp }
pub fn c457_0() -> bool { let n: usize = 0; let got: i64 = area(&match n { 0 => Sh::Unit, 1 => Sh::Sq(4), 2 => Sh::Rect { w: 2, h: 5 }, _ => Sh::Sq(n as i64) }); let exp: i64 = 1; got == exp }
pub fn s457_0(n: usize) -> bool { if !(n == 0) { return true; } let got: i64 = area(&match n { 0 => Sh::Unit, 1 => Sh::Sq(4), 2 => Sh::Rect { w: 2, h: 5 }, _ => Sh::Sq(n as i64) }); let exp: i64 = 1; got == exp }
pub fn c457_1() -> bool { let n: usize = 1; let got: i64 = area(&match n { 0 => Sh::Unit, 1 => Sh::Sq(4), 2 => Sh::Rect { w: 2, h: 5 }, _ => Sh::Sq(n as i64) }); let exp: i64 = 16; got == exp }
pub fn s457_1(n: usize) -> bool { if !(n == 1) { return true; } let got: i64 = area(&match n { 0 => Sh::Unit, 1 => Sh::Sq(4), 2 => Sh::Rect { w: 2, h: 5 }, _ => Sh::Sq(n as i64) }); let exp: i64 = 16; got == exp }
pub fn c457_2() -> bool { let n: usize = 2; let got: i64 = area(&match n { 0 => Sh::Unit, 1 => Sh::Sq(4), 2 => Sh::Rect { w: 2, h: 5 }, _ => Sh::Sq(n as i64) }); let exp: i64 = 10; got == exp }
pub fn s457_2(n: usize) -> bool { if !(n == 2) { return true; } let got: i64 = area(&match n { 0 => Sh::Unit, 1 => Sh::Sq(4), 2 => Sh::Rect { w: 2, h: 5 }, _ => Sh::Sq(n as i64) }); let exp: i64 = 10; got == exp }
pub fn c457_3() -> bool { let n: usize = 3; let got: i64 = area(&match n { 0 => Sh::Unit, 1 => Sh::Sq(4), 2 => Sh::Rect { w: 2, h: 5 }, _ => Sh::Sq(n as i64) }); let exp: i64 = 9; got == exp }
pub fn s457_3(n: usize) -> bool { if !(n == 3) { return true; } let got: i64 = area(&match n { 0 => Sh::Unit, 1 => Sh::Sq(4), 2 => Sh::Rect { w: 2, h: 5 }, _ => Sh::Sq(n as i64) }); let exp: i64 = 9; got == exp }
pub fn c457_4() -> bool { let n: usize = 7; let got: i64 = area(&match n { 0 => Sh::Unit, 1 => Sh::Sq(4), 2 => Sh::Rect { w: 2, h: 5 }, _ => Sh::Sq(n as i64) }); let exp: i64 = 49; got == exp }
pub fn s457_4(n: usize) -> bool { if !(n == 7) { return true; } let got: i64 = area(&match n { 0 => Sh::Unit, 1 => Sh::Sq(4), 2 => Sh::Rect { w: 2, h: 5 }, _ => Sh::Sq(n as i64) }); let exp: i64 = 49; got == exp }
pub fn c458_0() -> bool { let a: i64 = 0; let got: bool = P { x: 1, y: a } == P { x: 1, y: 8 }; let exp: bool = false; got == exp }
pub fn s458_0(a: i64) -> bool { if !(a == 0) { return true; } let got: bool = P { x: 1, y: a } == P { x: 1, y: 8 }; let exp: bool = false; got == exp }
pub fn c458_1() -> bool { let a: i64 = 8; let got: bool = P { x: 1, y: a } == P { x: 1, y: 8 }; let exp: bool = true; got == exp }
pub fn s458_1(a: i64) -> bool { if !(a == 8) { return true; } let got: bool = P { x: 1, y: a } == P { x: 1, y: 8 }; let exp: bool = true; got == exp }
pub fn c459_0() -> bool { let n: usize = 0; let got: bool = (if n == 0 { Sh::Unit } else { Sh::Sq(n as i64) }) == Sh::Sq(2); let exp: bool = false; got == exp }
pub fn s459_0(n: usize) -> bool { if !(n == 0) { return true; } let got: bool = (if n == 0 { Sh::Unit } else { Sh::Sq(n as i64) }) == Sh::Sq(2); let exp: bool = false; got == exp }
pub fn c459_1() -> bool { let n: usize = 1; let got: bool = (if n == 0 { Sh::Unit } else { Sh::Sq(n as i64) }) == Sh::Sq(2); let exp: bool = false; got == exp }
pub fn s459_1(n: usize) -> bool { if !(n == 1) { return true; } let got: bool = (if n == 0 { Sh::Unit } else { Sh::Sq(n as i64) }) == Sh::Sq(2); let exp: bool = false; got == exp }
pub fn c459_2() -> bool { let n: usize = 2; let got: bool = (if n == 0 { Sh::Unit } else { Sh::Sq(n as i64) }) == Sh::Sq(2); let exp: bool = true; got == exp }
pub fn s459_2(n: usize) -> bool { if !(n == 2) { return true; } let got: bool = (if n == 0 { Sh::Unit } else { Sh::Sq(n as i64) }) == Sh::Sq(2); let exp: bool = true; got == exp }
pub fn c459_3() -> bool { let n: usize = 3; let got: bool = (if n == 0 { Sh::Unit } else { Sh::Sq(n as i64) }) == Sh::Sq(2); let exp: bool = false; got == exp }
pub fn s459_3(n: usize) -> bool { if !(n == 3) { return true; } let got: bool = (if n == 0 { Sh::Unit } else { Sh::Sq(n as i64) }) == Sh::Sq(2); let exp: bool = false; got == exp }
pub fn c459_4() -> bool { let n: usize = 7; let got: bool = (if n == 0 { Sh::Unit } else { Sh::Sq(n as i64) }) == Sh::Sq(2); let exp: bool = false; got == exp }
pub fn s459_4(n: usize) -> bool { if !(n == 7) { return true; } let got: bool = (if n == 0 { Sh::Unit } else { Sh::Sq(n as i64) }) == Sh::Sq(2); let exp: bool = false; got == exp }
pub fn c460_0() -> bool { let a: i64 = 0; let got: i64 = { let f = |x: i64| x * a; f(2) + f(3) }; let exp: i64 = 0; got == exp }
pub fn s460_0(a: i64) -> bool { if !(a == 0) { return true; } let got: i64 = { let f = |x: i64| x * a; f(2) + f(3) }; let exp: i64 = 0; got == exp }
pub fn c460_1() -> bool { let a: i64 = 8; let got: i64 = { let f = |x: i64| x * a; f(2) + f(3) }; let exp: i64 = 40; got == exp }
pub fn s460_1(a: i64) -> bool { if !(a == 8) { return true; } let got: i64 = { let f = |x: i64| x * a; f(2) + f(3) }; let exp: i64 = 40; got == exp }
pub fn c460_2() -> bool { let a: i64 = -3; let got: i64 = { let f = |x: i64| x * a; f(2) + f(3) }; let exp: i64 = -15; got == exp }
pub fn s460_2(a: i64) -> bool { if !(a == -3) { return true; } let got: i64 = { let f = |x: i64| x * a; f(2) + f(3) }; let exp: i64 = -15; got == exp }
pub fn c461_0() -> bool { let a: i64 = 0; let got: i64 = { let mut c = 0; let mut f = |x: i64| c += x; f(a); f(2); c }; let exp: i64 = 2; got == exp }
pub fn s461_0(a: i64) -> bool { if !(a == 0) { return true; } let got: i64 = { let mut c = 0; let mut f = |x: i64| c += x; f(a); f(2); c }; let exp: i64 = 2; got == exp }
pub fn c461_1() -> bool { let a: i64 = 8; let got: i64 = { let mut c = 0; let mut f = |x: i64| c += x; f(a); f(2); c }; let exp: i64 = 10; got == exp }
pub fn s461_1(a: i64) -> bool { if !(a == 8) { return true; } let got: i64 = { let mut c = 0; let mut f = |x: i64| c += x; f(a); f(2); c }; let exp: i64 = 10; got == exp }
pub fn c461_2() -> bool { let a: i64 = -3; let got: i64 = { let mut c = 0; let mut f = |x: i64| c += x; f(a); f(2); c }; let exp: i64 = -1; got == exp }
pub fn s461_2(a: i64) -> bool { if !(a == -3) { return true; } let got: i64 = { let mut c = 0; let mut f = |x: i64| c += x; f(a); f(2); c }; let exp: i64 = -1; got == exp }
pub fn c462_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = pick(v.as_slice()).unwrap_or(-100); let exp: i64 = -100; got == exp }
pub fn c462_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = pick(v.as_slice()).unwrap_or(-100); let exp: i64 = -100; got == exp }
pub fn c462_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = pick(v.as_slice()).unwrap_or(-100); let exp: i64 = -2; got == exp }
pub fn c462_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = pick(v.as_slice()).unwrap_or(-100); let exp: i64 = 3; got == exp }
pub fn c462_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = pick(v.as_slice()).unwrap_or(-100); let exp: i64 = -8; got == exp }
pub fn c463_0() -> bool { let a: i64 = 0; let got: i64 = { let b: Box<dyn Fn(i64) -> i64> = Box::new(move |x| x + a); b(1) }; let exp: i64 = 1; got == exp }
pub fn s463_0(a: i64) -> bool { if !(a == 0) { return true; } let got: i64 = { let b: Box<dyn Fn(i64) -> i64> = Box::new(move |x| x + a); b(1) }; let exp: i64 = 1; got == exp }
pub fn c463_1() -> bool { let a: i64 = 8; let got: i64 = { let b: Box<dyn Fn(i64) -> i64> = Box::new(move |x| x + a); b(1) }; let exp: i64 = 9; got == exp }
pub fn s463_1(a: i64) -> bool { if !(a == 8) { return true; } let got: i64 = { let b: Box<dyn Fn(i64) -> i64> = Box::new(move |x| x + a); b(1) }; let exp: i64 = 9; got == exp }
pub fn c464_0() -> bool { let s: &str = ""; let got: usize = { let r = ropey::Rope::from_str(s); r.len_chars() }; let exp: usize = 0; got == exp }
pub fn s464_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_chars() }; let exp: usize = 0; got == exp }
pub fn c464_1() -> bool { let s: &str = "a"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_chars() }; let exp: usize = 1; got == exp }
pub fn s464_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_chars() }; let exp: usize = 1; got == exp }
pub fn c464_2() -> bool { let s: &str = "ab\u{a}cd"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_chars() }; let exp: usize = 5; got == exp }
pub fn s464_2(s: &'static str) -> bool { if !(s == "ab\u{a}cd") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_chars() }; let exp: usize = 5; got == exp }
pub fn c464_3() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_chars() }; let exp: usize = 5; got == exp }
pub fn s464_3(s: &'static str) -> bool { if !(s == "a\u{d}\u{a}b\u{a}") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_chars() }; let exp: usize = 5; got == exp }
pub fn c464_4() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_chars() }; let exp: usize = 5; got == exp }
pub fn s464_4(s: &'static str) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_chars() }; let exp: usize = 5; got == exp }
pub fn c464_5() -> bool { let s: &str = "\u{a}"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_chars() }; let exp: usize = 1; got == exp }
pub fn s464_5(s: &'static str) -> bool { if !(s == "\u{a}") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_chars() }; let exp: usize = 1; got == exp }
pub fn c464_6() -> bool { let s: &str = "x\u{d}y"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_chars() }; let exp: usize = 3; got == exp }
pub fn s464_6(s: &'static str) -> bool { if !(s == "x\u{d}y") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_chars() }; let exp: usize = 3; got == exp }
pub fn c464_7() -> bool { let s: &str = "a\u{2028}b\u{a}"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_chars() }; let exp: usize = 4; got == exp }
pub fn s464_7(s: &'static str) -> bool { if !(s == "a\u{2028}b\u{a}") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_chars() }; let exp: usize = 4; got == exp }
pub fn c465_0() -> bool { let s: &str = ""; let got: usize = { let r = ropey::Rope::from_str(s); r.len_lines() }; let exp: usize = 1; got == exp }
pub fn s465_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_lines() }; let exp: usize = 1; got == exp }
pub fn c465_1() -> bool { let s: &str = "a"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_lines() }; let exp: usize = 1; got == exp }
pub fn s465_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_lines() }; let exp: usize = 1; got == exp }
pub fn c465_2() -> bool { let s: &str = "ab\u{a}cd"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_lines() }; let exp: usize = 2; got == exp }
pub fn s465_2(s: &'static str) -> bool { if !(s == "ab\u{a}cd") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_lines() }; let exp: usize = 2; got == exp }
pub fn c465_3() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_lines() }; let exp: usize = 3; got == exp }
pub fn s465_3(s: &'static str) -> bool { if !(s == "a\u{d}\u{a}b\u{a}") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_lines() }; let exp: usize = 3; got == exp }
pub fn c465_4() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_lines() }; let exp: usize = 3; got == exp }
pub fn s465_4(s: &'static str) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_lines() }; let exp: usize = 3; got == exp }
pub fn c465_5() -> bool { let s: &str = "\u{a}"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_lines() }; let exp: usize = 2; got == exp }
pub fn s465_5(s: &'static str) -> bool { if !(s == "\u{a}") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_lines() }; let exp: usize = 2; got == exp }
pub fn c465_6() -> bool { let s: &str = "x\u{d}y"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_lines() }; let exp: usize = 2; got == exp }
pub fn s465_6(s: &'static str) -> bool { if !(s == "x\u{d}y") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_lines() }; let exp: usize = 2; got == exp }
pub fn c465_7() -> bool { let s: &str = "a\u{2028}b\u{a}"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_lines() }; let exp: usize = 3; got == exp }
pub fn s465_7(s: &'static str) -> bool { if !(s == "a\u{2028}b\u{a}") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_lines() }; let exp: usize = 3; got == exp }
pub fn c466_0() -> bool { let s: &str = ""; let got: usize = { let r = ropey::Rope::from_str(s); r.len_utf16_cu() }; let exp: usize = 0; got == exp }
pub fn s466_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_utf16_cu() }; let exp: usize = 0; got == exp }
pub fn c466_1() -> bool { let s: &str = "a"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_utf16_cu() }; let exp: usize = 1; got == exp }
pub fn s466_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_utf16_cu() }; let exp: usize = 1; got == exp }
pub fn c466_2() -> bool { let s: &str = "ab\u{a}cd"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_utf16_cu() }; let exp: usize = 5; got == exp }
pub fn s466_2(s: &'static str) -> bool { if !(s == "ab\u{a}cd") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_utf16_cu() }; let exp: usize = 5; got == exp }
pub fn c466_3() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_utf16_cu() }; let exp: usize = 5; got == exp }
pub fn s466_3(s: &'static str) -> bool { if !(s == "a\u{d}\u{a}b\u{a}") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_utf16_cu() }; let exp: usize = 5; got == exp }
pub fn c466_4() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_utf16_cu() }; let exp: usize = 6; got == exp }
pub fn s466_4(s: &'static str) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_utf16_cu() }; let exp: usize = 6; got == exp }
pub fn c466_5() -> bool { let s: &str = "\u{a}"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_utf16_cu() }; let exp: usize = 1; got == exp }
pub fn s466_5(s: &'static str) -> bool { if !(s == "\u{a}") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_utf16_cu() }; let exp: usize = 1; got == exp }
pub fn c466_6() -> bool { let s: &str = "x\u{d}y"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_utf16_cu() }; let exp: usize = 3; got == exp }
pub fn s466_6(s: &'static str) -> bool { if !(s == "x\u{d}y") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_utf16_cu() }; let exp: usize = 3; got == exp }
pub fn c466_7() -> bool { let s: &str = "a\u{2028}b\u{a}"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_utf16_cu() }; let exp: usize = 4; got == exp }
pub fn s466_7(s: &'static str) -> bool { if !(s == "a\u{2028}b\u{a}") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_utf16_cu() }; let exp: usize = 4; got == exp }
pub fn c467_0() -> bool { let s: &str = ""; let got: usize = { let r = ropey::Rope::from_str(s); r.len_bytes() }; let exp: usize = 0; got == exp }
pub fn s467_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_bytes() }; let exp: usize = 0; got == exp }
pub fn c467_1() -> bool { let s: &str = "a"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_bytes() }; let exp: usize = 1; got == exp }
pub fn s467_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_bytes() }; let exp: usize = 1; got == exp }
pub fn c467_2() -> bool { let s: &str = "ab\u{a}cd"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_bytes() }; let exp: usize = 5; got == exp }
pub fn s467_2(s: &'static str) -> bool { if !(s == "ab\u{a}cd") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_bytes() }; let exp: usize = 5; got == exp }
pub fn c467_3() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_bytes() }; let exp: usize = 5; got == exp }
pub fn s467_3(s: &'static str) -> bool { if !(s == "a\u{d}\u{a}b\u{a}") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_bytes() }; let exp: usize = 5; got == exp }
pub fn c467_4() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_bytes() }; let exp: usize = 9; got == exp }
pub fn s467_4(s: &'static str) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_bytes() }; let exp: usize = 9; got == exp }
pub fn c467_5() -> bool { let s: &str = "\u{a}"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_bytes() }; let exp: usize = 1; got == exp }
pub fn s467_5(s: &'static str) -> bool { if !(s == "\u{a}") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_bytes() }; let exp: usize = 1; got == exp }
pub fn c467_6() -> bool { let s: &str = "x\u{d}y"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_bytes() }; let exp: usize = 3; got == exp }
pub fn s467_6(s: &'static str) -> bool { if !(s == "x\u{d}y") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_bytes() }; let exp: usize = 3; got == exp }
pub fn c467_7() -> bool { let s: &str = "a\u{2028}b\u{a}"; let got: usize = { let r = ropey::Rope::from_str(s); r.len_bytes() }; let exp: usize = 6; got == exp }
pub fn s467_7(s: &'static str) -> bool { if !(s == "a\u{2028}b\u{a}") { return true; } let got: usize = { let r = ropey::Rope::from_str(s); r.len_bytes() }; let exp: usize = 6; got == exp }
pub fn c468_0() -> bool { let s: &str = ""; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s468_0(s: &'static str, n: usize) -> bool { if !(s == "" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c468_1() -> bool { let s: &str = ""; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s468_1(s: &'static str, n: usize) -> bool { if !(s == "" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c468_2() -> bool { let s: &str = ""; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s468_2(s: &'static str, n: usize) -> bool { if !(s == "" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c468_3() -> bool { let s: &str = ""; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s468_3(s: &'static str, n: usize) -> bool { if !(s == "" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c468_4() -> bool { let s: &str = ""; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s468_4(s: &'static str, n: usize) -> bool { if !(s == "" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c468_5() -> bool { let s: &str = "a"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s468_5(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c468_6() -> bool { let s: &str = "a"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s468_6(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c468_7() -> bool { let s: &str = "a"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s468_7(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c468_8() -> bool { let s: &str = "a"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s468_8(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c468_9() -> bool { let s: &str = "a"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s468_9(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c468_10() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s468_10(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c468_11() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s468_11(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c468_12() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(5); got == exp }
pub fn s468_12(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(5); got == exp }
pub fn c468_13() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s468_13(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c468_14() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s468_14(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c468_15() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s468_15(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c468_16() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s468_16(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c468_17() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(5); got == exp }
pub fn s468_17(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(5); got == exp }
pub fn c468_18() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(5); got == exp }
pub fn s468_18(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(5); got == exp }
pub fn c468_19() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s468_19(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c468_20() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s468_20(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c468_21() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(4); got == exp }
pub fn s468_21(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(4); got == exp }
pub fn c468_22() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(5); got == exp }
pub fn s468_22(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(5); got == exp }
pub fn c468_23() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(5); got == exp }
pub fn s468_23(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(5); got == exp }
pub fn c468_24() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s468_24(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c468_25() -> bool { let s: &str = "\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s468_25(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c468_26() -> bool { let s: &str = "\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s468_26(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c468_27() -> bool { let s: &str = "\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s468_27(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c468_28() -> bool { let s: &str = "\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s468_28(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c468_29() -> bool { let s: &str = "\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s468_29(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c468_30() -> bool { let s: &str = "x\u{d}y"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s468_30(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c468_31() -> bool { let s: &str = "x\u{d}y"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn s468_31(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn c468_32() -> bool { let s: &str = "x\u{d}y"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s468_32(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c468_33() -> bool { let s: &str = "x\u{d}y"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s468_33(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c468_34() -> bool { let s: &str = "x\u{d}y"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s468_34(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c468_35() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s468_35(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c468_36() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn s468_36(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn c468_37() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(4); got == exp }
pub fn s468_37(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(4); got == exp }
pub fn c468_38() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(4); got == exp }
pub fn s468_38(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = Some(4); got == exp }
pub fn c468_39() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s468_39(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c469_0() -> bool { let s: &str = ""; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s469_0(s: &'static str, n: usize) -> bool { if !(s == "" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c469_1() -> bool { let s: &str = ""; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s469_1(s: &'static str, n: usize) -> bool { if !(s == "" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c469_2() -> bool { let s: &str = ""; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s469_2(s: &'static str, n: usize) -> bool { if !(s == "" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c469_3() -> bool { let s: &str = ""; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s469_3(s: &'static str, n: usize) -> bool { if !(s == "" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c469_4() -> bool { let s: &str = ""; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s469_4(s: &'static str, n: usize) -> bool { if !(s == "" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c469_5() -> bool { let s: &str = "a"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s469_5(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c469_6() -> bool { let s: &str = "a"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s469_6(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c469_7() -> bool { let s: &str = "a"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s469_7(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c469_8() -> bool { let s: &str = "a"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s469_8(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c469_9() -> bool { let s: &str = "a"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s469_9(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c469_10() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s469_10(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c469_11() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s469_11(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c469_12() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s469_12(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c469_13() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s469_13(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c469_14() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s469_14(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c469_15() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s469_15(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c469_16() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s469_16(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c469_17() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s469_17(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c469_18() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s469_18(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c469_19() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s469_19(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c469_20() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s469_20(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c469_21() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s469_21(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c469_22() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s469_22(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c469_23() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s469_23(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c469_24() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s469_24(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c469_25() -> bool { let s: &str = "\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s469_25(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c469_26() -> bool { let s: &str = "\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s469_26(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c469_27() -> bool { let s: &str = "\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s469_27(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c469_28() -> bool { let s: &str = "\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s469_28(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c469_29() -> bool { let s: &str = "\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s469_29(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c469_30() -> bool { let s: &str = "x\u{d}y"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s469_30(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c469_31() -> bool { let s: &str = "x\u{d}y"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s469_31(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c469_32() -> bool { let s: &str = "x\u{d}y"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s469_32(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c469_33() -> bool { let s: &str = "x\u{d}y"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s469_33(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c469_34() -> bool { let s: &str = "x\u{d}y"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s469_34(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c469_35() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s469_35(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c469_36() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s469_36(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c469_37() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s469_37(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c469_38() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s469_38(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c469_39() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s469_39(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c470_0() -> bool { let s: &str = ""; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s470_0(s: &'static str, n: usize) -> bool { if !(s == "" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c470_1() -> bool { let s: &str = ""; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s470_1(s: &'static str, n: usize) -> bool { if !(s == "" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c470_2() -> bool { let s: &str = ""; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s470_2(s: &'static str, n: usize) -> bool { if !(s == "" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c470_3() -> bool { let s: &str = ""; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s470_3(s: &'static str, n: usize) -> bool { if !(s == "" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c470_4() -> bool { let s: &str = ""; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s470_4(s: &'static str, n: usize) -> bool { if !(s == "" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c470_5() -> bool { let s: &str = "a"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s470_5(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c470_6() -> bool { let s: &str = "a"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s470_6(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c470_7() -> bool { let s: &str = "a"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s470_7(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c470_8() -> bool { let s: &str = "a"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s470_8(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c470_9() -> bool { let s: &str = "a"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s470_9(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c470_10() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s470_10(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c470_11() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s470_11(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c470_12() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn s470_12(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn c470_13() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s470_13(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c470_14() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s470_14(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c470_15() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s470_15(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c470_16() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s470_16(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c470_17() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn s470_17(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn c470_18() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s470_18(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c470_19() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s470_19(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c470_20() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s470_20(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c470_21() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s470_21(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c470_22() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s470_22(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c470_23() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(4); got == exp }
pub fn s470_23(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(4); got == exp }
pub fn c470_24() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s470_24(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c470_25() -> bool { let s: &str = "\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s470_25(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c470_26() -> bool { let s: &str = "\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s470_26(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c470_27() -> bool { let s: &str = "\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s470_27(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c470_28() -> bool { let s: &str = "\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s470_28(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c470_29() -> bool { let s: &str = "\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s470_29(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c470_30() -> bool { let s: &str = "x\u{d}y"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s470_30(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c470_31() -> bool { let s: &str = "x\u{d}y"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s470_31(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c470_32() -> bool { let s: &str = "x\u{d}y"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn s470_32(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn c470_33() -> bool { let s: &str = "x\u{d}y"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s470_33(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c470_34() -> bool { let s: &str = "x\u{d}y"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s470_34(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c470_35() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s470_35(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c470_36() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s470_36(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c470_37() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn s470_37(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn c470_38() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s470_38(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c470_39() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s470_39(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c471_0() -> bool { let s: &str = ""; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s471_0(s: &'static str, n: usize) -> bool { if !(s == "" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c471_1() -> bool { let s: &str = ""; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s471_1(s: &'static str, n: usize) -> bool { if !(s == "" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c471_2() -> bool { let s: &str = ""; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s471_2(s: &'static str, n: usize) -> bool { if !(s == "" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c471_3() -> bool { let s: &str = ""; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s471_3(s: &'static str, n: usize) -> bool { if !(s == "" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c471_4() -> bool { let s: &str = ""; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s471_4(s: &'static str, n: usize) -> bool { if !(s == "" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c471_5() -> bool { let s: &str = "a"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s471_5(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c471_6() -> bool { let s: &str = "a"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s471_6(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c471_7() -> bool { let s: &str = "a"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s471_7(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c471_8() -> bool { let s: &str = "a"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s471_8(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c471_9() -> bool { let s: &str = "a"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s471_9(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c471_10() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s471_10(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c471_11() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s471_11(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c471_12() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn s471_12(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn c471_13() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s471_13(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c471_14() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s471_14(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c471_15() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s471_15(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c471_16() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s471_16(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c471_17() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn s471_17(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn c471_18() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s471_18(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c471_19() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s471_19(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c471_20() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s471_20(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c471_21() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s471_21(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c471_22() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s471_22(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c471_23() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn s471_23(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn c471_24() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s471_24(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c471_25() -> bool { let s: &str = "\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s471_25(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c471_26() -> bool { let s: &str = "\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s471_26(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c471_27() -> bool { let s: &str = "\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s471_27(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c471_28() -> bool { let s: &str = "\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s471_28(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c471_29() -> bool { let s: &str = "\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s471_29(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c471_30() -> bool { let s: &str = "x\u{d}y"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s471_30(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c471_31() -> bool { let s: &str = "x\u{d}y"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s471_31(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c471_32() -> bool { let s: &str = "x\u{d}y"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn s471_32(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn c471_33() -> bool { let s: &str = "x\u{d}y"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s471_33(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c471_34() -> bool { let s: &str = "x\u{d}y"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s471_34(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c471_35() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s471_35(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c471_36() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s471_36(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c471_37() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn s471_37(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn c471_38() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s471_38(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c471_39() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s471_39(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c472_0() -> bool { let s: &str = ""; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s472_0(s: &'static str, n: usize) -> bool { if !(s == "" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c472_1() -> bool { let s: &str = ""; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s472_1(s: &'static str, n: usize) -> bool { if !(s == "" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c472_2() -> bool { let s: &str = ""; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s472_2(s: &'static str, n: usize) -> bool { if !(s == "" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c472_3() -> bool { let s: &str = ""; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s472_3(s: &'static str, n: usize) -> bool { if !(s == "" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c472_4() -> bool { let s: &str = ""; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s472_4(s: &'static str, n: usize) -> bool { if !(s == "" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c472_5() -> bool { let s: &str = "a"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s472_5(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c472_6() -> bool { let s: &str = "a"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s472_6(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c472_7() -> bool { let s: &str = "a"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s472_7(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c472_8() -> bool { let s: &str = "a"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s472_8(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c472_9() -> bool { let s: &str = "a"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s472_9(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c472_10() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s472_10(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c472_11() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s472_11(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c472_12() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn s472_12(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn c472_13() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s472_13(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c472_14() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s472_14(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c472_15() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s472_15(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c472_16() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s472_16(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c472_17() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn s472_17(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn c472_18() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s472_18(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c472_19() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s472_19(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c472_20() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s472_20(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c472_21() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn s472_21(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn c472_22() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(6); got == exp }
pub fn s472_22(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(6); got == exp }
pub fn c472_23() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(7); got == exp }
pub fn s472_23(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(7); got == exp }
pub fn c472_24() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s472_24(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c472_25() -> bool { let s: &str = "\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s472_25(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c472_26() -> bool { let s: &str = "\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s472_26(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c472_27() -> bool { let s: &str = "\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s472_27(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c472_28() -> bool { let s: &str = "\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s472_28(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c472_29() -> bool { let s: &str = "\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s472_29(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c472_30() -> bool { let s: &str = "x\u{d}y"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s472_30(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c472_31() -> bool { let s: &str = "x\u{d}y"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s472_31(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c472_32() -> bool { let s: &str = "x\u{d}y"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn s472_32(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn c472_33() -> bool { let s: &str = "x\u{d}y"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s472_33(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c472_34() -> bool { let s: &str = "x\u{d}y"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s472_34(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c472_35() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s472_35(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c472_36() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s472_36(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c472_37() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(4); got == exp }
pub fn s472_37(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(4); got == exp }
pub fn c472_38() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(5); got == exp }
pub fn s472_38(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = Some(5); got == exp }
pub fn c472_39() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s472_39(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c473_0() -> bool { let s: &str = ""; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s473_0(s: &'static str, n: usize) -> bool { if !(s == "" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c473_1() -> bool { let s: &str = ""; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s473_1(s: &'static str, n: usize) -> bool { if !(s == "" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c473_2() -> bool { let s: &str = ""; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s473_2(s: &'static str, n: usize) -> bool { if !(s == "" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c473_3() -> bool { let s: &str = ""; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s473_3(s: &'static str, n: usize) -> bool { if !(s == "" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c473_4() -> bool { let s: &str = ""; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s473_4(s: &'static str, n: usize) -> bool { if !(s == "" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c473_5() -> bool { let s: &str = "a"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s473_5(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c473_6() -> bool { let s: &str = "a"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s473_6(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c473_7() -> bool { let s: &str = "a"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s473_7(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c473_8() -> bool { let s: &str = "a"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s473_8(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c473_9() -> bool { let s: &str = "a"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s473_9(s: &'static str, n: usize) -> bool { if !(s == "a" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c473_10() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s473_10(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c473_11() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s473_11(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c473_12() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn s473_12(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn c473_13() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s473_13(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c473_14() -> bool { let s: &str = "ab\u{a}cd"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s473_14(s: &'static str, n: usize) -> bool { if !(s == "ab\u{a}cd" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c473_15() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s473_15(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c473_16() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s473_16(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c473_17() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn s473_17(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn c473_18() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s473_18(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c473_19() -> bool { let s: &str = "a\u{d}\u{a}b\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s473_19(s: &'static str, n: usize) -> bool { if !(s == "a\u{d}\u{a}b\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c473_20() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s473_20(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c473_21() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s473_21(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c473_22() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s473_22(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c473_23() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s473_23(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c473_24() -> bool { let s: &str = "\u{e9}\u{1f600}x\u{a}\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s473_24(s: &'static str, n: usize) -> bool { if !(s == "\u{e9}\u{1f600}x\u{a}\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c473_25() -> bool { let s: &str = "\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s473_25(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c473_26() -> bool { let s: &str = "\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s473_26(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c473_27() -> bool { let s: &str = "\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s473_27(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c473_28() -> bool { let s: &str = "\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s473_28(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c473_29() -> bool { let s: &str = "\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s473_29(s: &'static str, n: usize) -> bool { if !(s == "\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c473_30() -> bool { let s: &str = "x\u{d}y"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s473_30(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c473_31() -> bool { let s: &str = "x\u{d}y"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s473_31(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c473_32() -> bool { let s: &str = "x\u{d}y"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn s473_32(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(2); got == exp }
pub fn c473_33() -> bool { let s: &str = "x\u{d}y"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn s473_33(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(3); got == exp }
pub fn c473_34() -> bool { let s: &str = "x\u{d}y"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s473_34(s: &'static str, n: usize) -> bool { if !(s == "x\u{d}y" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c473_35() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 0; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn s473_35(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 0) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(0); got == exp }
pub fn c473_36() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 1; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s473_36(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 1) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c473_37() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 2; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s473_37(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 2) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c473_38() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 3; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn s473_38(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 3) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = Some(1); got == exp }
pub fn c473_39() -> bool { let s: &str = "a\u{2028}b\u{a}"; let n: usize = 7; let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn s473_39(s: &'static str, n: usize) -> bool { if !(s == "a\u{2028}b\u{a}" && n == 7) { return true; } let got: Option<usize> = { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() }; let exp: Option<usize> = None; got == exp }
pub fn c474_0() -> bool { let s: &str = ""; let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = false; got == exp }
pub fn s474_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = false; got == exp }
pub fn c474_1() -> bool { let s: &str = "{}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = true; got == exp }
pub fn s474_1(s: &'static str) -> bool { if !(s == "{}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = true; got == exp }
pub fn c474_2() -> bool { let s: &str = "[]"; let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = true; got == exp }
pub fn s474_2(s: &'static str) -> bool { if !(s == "[]") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = true; got == exp }
pub fn c474_3() -> bool { let s: &str = "null"; let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = true; got == exp }
pub fn s474_3(s: &'static str) -> bool { if !(s == "null") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = true; got == exp }
pub fn c474_4() -> bool { let s: &str = "{\u{22}backtrace\u{22}:[[\u{22}a\u{22},\u{22}b:1\u{22}]]}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = true; got == exp }
pub fn s474_4(s: &'static str) -> bool { if !(s == "{\u{22}backtrace\u{22}:[[\u{22}a\u{22},\u{22}b:1\u{22}]]}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = true; got == exp }
pub fn c474_5() -> bool { let s: &str = "{\u{22}backtrace\u{22}:3}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = true; got == exp }
pub fn s474_5(s: &'static str) -> bool { if !(s == "{\u{22}backtrace\u{22}:3}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = true; got == exp }
pub fn c474_6() -> bool { let s: &str = "[\u{22}x\u{22}]"; let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = true; got == exp }
pub fn s474_6(s: &'static str) -> bool { if !(s == "[\u{22}x\u{22}]") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = true; got == exp }
pub fn c474_7() -> bool { let s: &str = "1"; let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = true; got == exp }
pub fn s474_7(s: &'static str) -> bool { if !(s == "1") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = true; got == exp }
pub fn c474_8() -> bool { let s: &str = "\u{22}s\u{22}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = true; got == exp }
pub fn s474_8(s: &'static str) -> bool { if !(s == "\u{22}s\u{22}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = true; got == exp }
pub fn c474_9() -> bool { let s: &str = "{"; let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = false; got == exp }
pub fn s474_9(s: &'static str) -> bool { if !(s == "{") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = false; got == exp }
pub fn c474_10() -> bool { let s: &str = "{\u{22}a\u{22}:\u{22}b\u{22}}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = true; got == exp }
pub fn s474_10(s: &'static str) -> bool { if !(s == "{\u{22}a\u{22}:\u{22}b\u{22}}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).is_ok(); let exp: bool = true; got == exp }
pub fn c475_0() -> bool { let s: &str = ""; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = false; got == exp }
pub fn s475_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = false; got == exp }
pub fn c475_1() -> bool { let s: &str = "{}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = false; got == exp }
pub fn s475_1(s: &'static str) -> bool { if !(s == "{}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = false; got == exp }
pub fn c475_2() -> bool { let s: &str = "[]"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = false; got == exp }
pub fn s475_2(s: &'static str) -> bool { if !(s == "[]") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = false; got == exp }
pub fn c475_3() -> bool { let s: &str = "null"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = false; got == exp }
pub fn s475_3(s: &'static str) -> bool { if !(s == "null") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = false; got == exp }
pub fn c475_4() -> bool { let s: &str = "{\u{22}backtrace\u{22}:[[\u{22}a\u{22},\u{22}b:1\u{22}]]}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = true; got == exp }
pub fn s475_4(s: &'static str) -> bool { if !(s == "{\u{22}backtrace\u{22}:[[\u{22}a\u{22},\u{22}b:1\u{22}]]}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = true; got == exp }
pub fn c475_5() -> bool { let s: &str = "{\u{22}backtrace\u{22}:3}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = true; got == exp }
pub fn s475_5(s: &'static str) -> bool { if !(s == "{\u{22}backtrace\u{22}:3}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = true; got == exp }
pub fn c475_6() -> bool { let s: &str = "[\u{22}x\u{22}]"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = false; got == exp }
pub fn s475_6(s: &'static str) -> bool { if !(s == "[\u{22}x\u{22}]") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = false; got == exp }
pub fn c475_7() -> bool { let s: &str = "1"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = false; got == exp }
pub fn s475_7(s: &'static str) -> bool { if !(s == "1") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = false; got == exp }
pub fn c475_8() -> bool { let s: &str = "\u{22}s\u{22}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = false; got == exp }
pub fn s475_8(s: &'static str) -> bool { if !(s == "\u{22}s\u{22}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = false; got == exp }
pub fn c475_9() -> bool { let s: &str = "{"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = false; got == exp }
pub fn s475_9(s: &'static str) -> bool { if !(s == "{") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = false; got == exp }
pub fn c475_10() -> bool { let s: &str = "{\u{22}a\u{22}:\u{22}b\u{22}}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = false; got == exp }
pub fn s475_10(s: &'static str) -> bool { if !(s == "{\u{22}a\u{22}:\u{22}b\u{22}}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()); let exp: bool = false; got == exp }
pub fn c476_0() -> bool { let s: &str = ""; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn s476_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn c476_1() -> bool { let s: &str = "{}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn s476_1(s: &'static str) -> bool { if !(s == "{}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn c476_2() -> bool { let s: &str = "[]"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn s476_2(s: &'static str) -> bool { if !(s == "[]") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn c476_3() -> bool { let s: &str = "null"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn s476_3(s: &'static str) -> bool { if !(s == "null") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn c476_4() -> bool { let s: &str = "{\u{22}backtrace\u{22}:[[\u{22}a\u{22},\u{22}b:1\u{22}]]}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = true; got == exp }
pub fn s476_4(s: &'static str) -> bool { if !(s == "{\u{22}backtrace\u{22}:[[\u{22}a\u{22},\u{22}b:1\u{22}]]}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = true; got == exp }
pub fn c476_5() -> bool { let s: &str = "{\u{22}backtrace\u{22}:3}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn s476_5(s: &'static str) -> bool { if !(s == "{\u{22}backtrace\u{22}:3}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn c476_6() -> bool { let s: &str = "[\u{22}x\u{22}]"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn s476_6(s: &'static str) -> bool { if !(s == "[\u{22}x\u{22}]") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn c476_7() -> bool { let s: &str = "1"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn s476_7(s: &'static str) -> bool { if !(s == "1") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn c476_8() -> bool { let s: &str = "\u{22}s\u{22}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn s476_8(s: &'static str) -> bool { if !(s == "\u{22}s\u{22}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn c476_9() -> bool { let s: &str = "{"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn s476_9(s: &'static str) -> bool { if !(s == "{") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn c476_10() -> bool { let s: &str = "{\u{22}a\u{22}:\u{22}b\u{22}}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn s476_10(s: &'static str) -> bool { if !(s == "{\u{22}a\u{22}:\u{22}b\u{22}}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)); let exp: bool = false; got == exp }
pub fn c477_0() -> bool { let s: &str = ""; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = false; got == exp }
pub fn s477_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = false; got == exp }
pub fn c477_1() -> bool { let s: &str = "{}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = false; got == exp }
pub fn s477_1(s: &'static str) -> bool { if !(s == "{}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = false; got == exp }
pub fn c477_2() -> bool { let s: &str = "[]"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = true; got == exp }
pub fn s477_2(s: &'static str) -> bool { if !(s == "[]") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = true; got == exp }
pub fn c477_3() -> bool { let s: &str = "null"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = false; got == exp }
pub fn s477_3(s: &'static str) -> bool { if !(s == "null") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = false; got == exp }
pub fn c477_4() -> bool { let s: &str = "{\u{22}backtrace\u{22}:[[\u{22}a\u{22},\u{22}b:1\u{22}]]}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = false; got == exp }
pub fn s477_4(s: &'static str) -> bool { if !(s == "{\u{22}backtrace\u{22}:[[\u{22}a\u{22},\u{22}b:1\u{22}]]}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = false; got == exp }
pub fn c477_5() -> bool { let s: &str = "{\u{22}backtrace\u{22}:3}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = false; got == exp }
pub fn s477_5(s: &'static str) -> bool { if !(s == "{\u{22}backtrace\u{22}:3}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = false; got == exp }
pub fn c477_6() -> bool { let s: &str = "[\u{22}x\u{22}]"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = true; got == exp }
pub fn s477_6(s: &'static str) -> bool { if !(s == "[\u{22}x\u{22}]") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = true; got == exp }
pub fn c477_7() -> bool { let s: &str = "1"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = false; got == exp }
pub fn s477_7(s: &'static str) -> bool { if !(s == "1") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = false; got == exp }
pub fn c477_8() -> bool { let s: &str = "\u{22}s\u{22}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = false; got == exp }
pub fn s477_8(s: &'static str) -> bool { if !(s == "\u{22}s\u{22}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = false; got == exp }
pub fn c477_9() -> bool { let s: &str = "{"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = false; got == exp }
pub fn s477_9(s: &'static str) -> bool { if !(s == "{") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = false; got == exp }
pub fn c477_10() -> bool { let s: &str = "{\u{22}a\u{22}:\u{22}b\u{22}}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = false; got == exp }
pub fn s477_10(s: &'static str) -> bool { if !(s == "{\u{22}a\u{22}:\u{22}b\u{22}}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()); let exp: bool = false; got == exp }
pub fn c478_0() -> bool { let s: &str = ""; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn s478_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn c478_1() -> bool { let s: &str = "{}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn s478_1(s: &'static str) -> bool { if !(s == "{}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn c478_2() -> bool { let s: &str = "[]"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn s478_2(s: &'static str) -> bool { if !(s == "[]") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn c478_3() -> bool { let s: &str = "null"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn s478_3(s: &'static str) -> bool { if !(s == "null") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn c478_4() -> bool { let s: &str = "{\u{22}backtrace\u{22}:[[\u{22}a\u{22},\u{22}b:1\u{22}]]}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn s478_4(s: &'static str) -> bool { if !(s == "{\u{22}backtrace\u{22}:[[\u{22}a\u{22},\u{22}b:1\u{22}]]}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn c478_5() -> bool { let s: &str = "{\u{22}backtrace\u{22}:3}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn s478_5(s: &'static str) -> bool { if !(s == "{\u{22}backtrace\u{22}:3}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn c478_6() -> bool { let s: &str = "[\u{22}x\u{22}]"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn s478_6(s: &'static str) -> bool { if !(s == "[\u{22}x\u{22}]") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn c478_7() -> bool { let s: &str = "1"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn s478_7(s: &'static str) -> bool { if !(s == "1") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn c478_8() -> bool { let s: &str = "\u{22}s\u{22}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = true; got == exp }
pub fn s478_8(s: &'static str) -> bool { if !(s == "\u{22}s\u{22}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = true; got == exp }
pub fn c478_9() -> bool { let s: &str = "{"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn s478_9(s: &'static str) -> bool { if !(s == "{") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn c478_10() -> bool { let s: &str = "{\u{22}a\u{22}:\u{22}b\u{22}}"; let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn s478_10(s: &'static str) -> bool { if !(s == "{\u{22}a\u{22}:\u{22}b\u{22}}") { return true; } let got: bool = serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")); let exp: bool = false; got == exp }
pub fn c479_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut i = v.iter(); let a = i.any(|x| *x == 2) as i64; a * 100 + i.next().copied().unwrap_or(-7) }; let exp: i64 = -7; got == exp }
pub fn c479_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut i = v.iter(); let a = i.any(|x| *x == 2) as i64; a * 100 + i.next().copied().unwrap_or(-7) }; let exp: i64 = -7; got == exp }
pub fn c479_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut i = v.iter(); let a = i.any(|x| *x == 2) as i64; a * 100 + i.next().copied().unwrap_or(-7) }; let exp: i64 = 103; got == exp }
pub fn c479_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut i = v.iter(); let a = i.any(|x| *x == 2) as i64; a * 100 + i.next().copied().unwrap_or(-7) }; let exp: i64 = 93; got == exp }
pub fn c479_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut i = v.iter(); let a = i.any(|x| *x == 2) as i64; a * 100 + i.next().copied().unwrap_or(-7) }; let exp: i64 = 104; got == exp }
pub fn c480_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut i = v.iter(); let a = i.find(|x| **x > 1).copied().unwrap_or(0); a * 100 + i.count() as i64 }; let exp: i64 = 0; got == exp }
pub fn c480_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut i = v.iter(); let a = i.find(|x| **x > 1).copied().unwrap_or(0); a * 100 + i.count() as i64 }; let exp: i64 = 300; got == exp }
pub fn c480_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut i = v.iter(); let a = i.find(|x| **x > 1).copied().unwrap_or(0); a * 100 + i.count() as i64 }; let exp: i64 = 201; got == exp }
pub fn c480_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut i = v.iter(); let a = i.find(|x| **x > 1).copied().unwrap_or(0); a * 100 + i.count() as i64 }; let exp: i64 = 503; got == exp }
pub fn c480_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut i = v.iter(); let a = i.find(|x| **x > 1).copied().unwrap_or(0); a * 100 + i.count() as i64 }; let exp: i64 = 204; got == exp }
pub fn c481_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut i = v.iter(); let a = i.nth(1).copied().unwrap_or(0); a * 100 + i.next().copied().unwrap_or(-7) }; let exp: i64 = -7; got == exp }
pub fn c481_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut i = v.iter(); let a = i.nth(1).copied().unwrap_or(0); a * 100 + i.next().copied().unwrap_or(-7) }; let exp: i64 = -7; got == exp }
pub fn c481_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut i = v.iter(); let a = i.nth(1).copied().unwrap_or(0); a * 100 + i.next().copied().unwrap_or(-7) }; let exp: i64 = 203; got == exp }
pub fn c481_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut i = v.iter(); let a = i.nth(1).copied().unwrap_or(0); a * 100 + i.next().copied().unwrap_or(-7) }; let exp: i64 = 499; got == exp }
pub fn c481_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut i = v.iter(); let a = i.nth(1).copied().unwrap_or(0); a * 100 + i.next().copied().unwrap_or(-7) }; let exp: i64 = 406; got == exp }
pub fn c482_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut i = v.iter(); let a = i.position(|x| *x == 5).unwrap_or(9); a as i64 * 100 + i.len() as i64 }; let exp: i64 = 900; got == exp }
pub fn c482_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut i = v.iter(); let a = i.position(|x| *x == 5).unwrap_or(9); a as i64 * 100 + i.len() as i64 }; let exp: i64 = 900; got == exp }
pub fn c482_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut i = v.iter(); let a = i.position(|x| *x == 5).unwrap_or(9); a as i64 * 100 + i.len() as i64 }; let exp: i64 = 900; got == exp }
pub fn c482_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut i = v.iter(); let a = i.position(|x| *x == 5).unwrap_or(9); a as i64 * 100 + i.len() as i64 }; let exp: i64 = 3; got == exp }
pub fn c482_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut i = v.iter(); let a = i.position(|x| *x == 5).unwrap_or(9); a as i64 * 100 + i.len() as i64 }; let exp: i64 = 900; got == exp }
pub fn c483_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = { let mut i = v.iter(); i.next(); i.all(|x| *x < 3); i.next().copied().unwrap_or(-7) }; let exp: i64 = -7; got == exp }
pub fn c483_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = { let mut i = v.iter(); i.next(); i.all(|x| *x < 3); i.next().copied().unwrap_or(-7) }; let exp: i64 = -7; got == exp }
pub fn c483_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = { let mut i = v.iter(); i.next(); i.all(|x| *x < 3); i.next().copied().unwrap_or(-7) }; let exp: i64 = -7; got == exp }
pub fn c483_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = { let mut i = v.iter(); i.next(); i.all(|x| *x < 3); i.next().copied().unwrap_or(-7) }; let exp: i64 = -1; got == exp }
pub fn c483_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = { let mut i = v.iter(); i.next(); i.all(|x| *x < 3); i.next().copied().unwrap_or(-7) }; let exp: i64 = 6; got == exp }
pub fn c484_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = v.iter().fold(0, |a, x| a + x); let exp: i64 = 0; got == exp }
pub fn c484_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = v.iter().fold(0, |a, x| a + x); let exp: i64 = 3; got == exp }
pub fn c484_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = v.iter().fold(0, |a, x| a + x); let exp: i64 = 6; got == exp }
pub fn c484_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = v.iter().fold(0, |a, x| a + x); let exp: i64 = 11; got == exp }
pub fn c484_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = v.iter().fold(0, |a, x| a + x); let exp: i64 = 30; got == exp }
pub fn c485_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = v.iter().fold(1, |a, x| if *x > 2 { a + x } else { a }); let exp: i64 = 1; got == exp }
pub fn c485_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = v.iter().fold(1, |a, x| if *x > 2 { a + x } else { a }); let exp: i64 = 4; got == exp }
pub fn c485_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = v.iter().fold(1, |a, x| if *x > 2 { a + x } else { a }); let exp: i64 = 4; got == exp }
pub fn c485_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = v.iter().fold(1, |a, x| if *x > 2 { a + x } else { a }); let exp: i64 = 11; got == exp }
pub fn c485_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = v.iter().fold(1, |a, x| if *x > 2 { a + x } else { a }); let exp: i64 = 29; got == exp }
pub fn c486_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = v.iter().rev().fold(0, |a, x| a * 10 + x); let exp: i64 = 0; got == exp }
pub fn c486_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = v.iter().rev().fold(0, |a, x| a * 10 + x); let exp: i64 = 3; got == exp }
pub fn c486_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = v.iter().rev().fold(0, |a, x| a * 10 + x); let exp: i64 = 321; got == exp }
pub fn c486_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = v.iter().rev().fold(0, |a, x| a * 10 + x); let exp: i64 = 1955; got == exp }
pub fn c486_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = v.iter().rev().fold(0, |a, x| a * 10 + x); let exp: i64 = 108642; got == exp }
pub fn c487_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = v.iter().filter(|x| **x > 1).fold(0, |a, _| a + 1); let exp: i64 = 0; got == exp }
pub fn c487_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = v.iter().filter(|x| **x > 1).fold(0, |a, _| a + 1); let exp: i64 = 1; got == exp }
pub fn c487_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = v.iter().filter(|x| **x > 1).fold(0, |a, _| a + 1); let exp: i64 = 2; got == exp }
pub fn c487_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = v.iter().filter(|x| **x > 1).fold(0, |a, _| a + 1); let exp: i64 = 3; got == exp }
pub fn c487_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = v.iter().filter(|x| **x > 1).fold(0, |a, _| a + 1); let exp: i64 = 5; got == exp }
pub fn c488_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = match v.split_first() { Some((a, r)) => a * 10 + r.len() as i64, None => -1 }; let exp: i64 = -1; got == exp }
pub fn c488_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = match v.split_first() { Some((a, r)) => a * 10 + r.len() as i64, None => -1 }; let exp: i64 = 30; got == exp }
pub fn c488_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = match v.split_first() { Some((a, r)) => a * 10 + r.len() as i64, None => -1 }; let exp: i64 = 12; got == exp }
pub fn c488_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = match v.split_first() { Some((a, r)) => a * 10 + r.len() as i64, None => -1 }; let exp: i64 = 53; got == exp }
pub fn c488_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = match v.split_first() { Some((a, r)) => a * 10 + r.len() as i64, None => -1 }; let exp: i64 = 24; got == exp }
pub fn c489_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = match v.split_last() { Some((a, r)) => a * 10 + r.len() as i64, None => -1 }; let exp: i64 = -1; got == exp }
pub fn c489_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = match v.split_last() { Some((a, r)) => a * 10 + r.len() as i64, None => -1 }; let exp: i64 = 30; got == exp }
pub fn c489_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = match v.split_last() { Some((a, r)) => a * 10 + r.len() as i64, None => -1 }; let exp: i64 = 32; got == exp }
pub fn c489_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = match v.split_last() { Some((a, r)) => a * 10 + r.len() as i64, None => -1 }; let exp: i64 = 23; got == exp }
pub fn c489_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = match v.split_last() { Some((a, r)) => a * 10 + r.len() as i64, None => -1 }; let exp: i64 = 104; got == exp }
pub fn c490_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = v.iter().map(|x| x * 2).nth(2).unwrap_or(-3); let exp: i64 = -3; got == exp }
pub fn c490_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = v.iter().map(|x| x * 2).nth(2).unwrap_or(-3); let exp: i64 = -3; got == exp }
pub fn c490_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = v.iter().map(|x| x * 2).nth(2).unwrap_or(-3); let exp: i64 = 6; got == exp }
pub fn c490_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = v.iter().map(|x| x * 2).nth(2).unwrap_or(-3); let exp: i64 = -2; got == exp }
pub fn c490_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = v.iter().map(|x| x * 2).nth(2).unwrap_or(-3); let exp: i64 = 12; got == exp }
pub fn c491_0() -> bool { let v: Vec<i64> = vec![]; let got: i64 = v.iter().enumerate().fold(0, |a, (i, x)| a + i as i64 * x); let exp: i64 = 0; got == exp }
pub fn c491_1() -> bool { let v: Vec<i64> = vec![3]; let got: i64 = v.iter().enumerate().fold(0, |a, (i, x)| a + i as i64 * x); let exp: i64 = 0; got == exp }
pub fn c491_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: i64 = v.iter().enumerate().fold(0, |a, (i, x)| a + i as i64 * x); let exp: i64 = 8; got == exp }
pub fn c491_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: i64 = v.iter().enumerate().fold(0, |a, (i, x)| a + i as i64 * x); let exp: i64 = 9; got == exp }
pub fn c491_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: i64 = v.iter().enumerate().fold(0, |a, (i, x)| a + i as i64 * x); let exp: i64 = 80; got == exp }
pub fn c492_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().fold(Vec::new(), |mut a, x| { a.push(*x); a }); let exp: Vec<i64> = vec![]; got == exp }
pub fn c492_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().fold(Vec::new(), |mut a, x| { a.push(*x); a }); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c492_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().fold(Vec::new(), |mut a, x| { a.push(*x); a }); let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c492_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().fold(Vec::new(), |mut a, x| { a.push(*x); a }); let exp: Vec<i64> = vec![5, 5, -1, 2]; got == exp }
pub fn c492_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().fold(Vec::new(), |mut a, x| { a.push(*x); a }); let exp: Vec<i64> = vec![2, 4, 6, 8, 10]; got == exp }
pub fn c493_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.iter().fold(vec![], |mut a: Vec<i64>, x| { if a.last() != Some(x) { a.push(*x); } a }); let exp: Vec<i64> = vec![]; got == exp }
pub fn c493_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.iter().fold(vec![], |mut a: Vec<i64>, x| { if a.last() != Some(x) { a.push(*x); } a }); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c493_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.iter().fold(vec![], |mut a: Vec<i64>, x| { if a.last() != Some(x) { a.push(*x); } a }); let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c493_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.iter().fold(vec![], |mut a: Vec<i64>, x| { if a.last() != Some(x) { a.push(*x); } a }); let exp: Vec<i64> = vec![5, -1, 2]; got == exp }
pub fn c493_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.iter().fold(vec![], |mut a: Vec<i64>, x| { if a.last() != Some(x) { a.push(*x); } a }); let exp: Vec<i64> = vec![2, 4, 6, 8, 10]; got == exp }
pub fn c494_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v[..v.len() / 2].to_vec(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c494_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v[..v.len() / 2].to_vec(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c494_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v[..v.len() / 2].to_vec(); let exp: Vec<i64> = vec![1]; got == exp }
pub fn c494_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v[..v.len() / 2].to_vec(); let exp: Vec<i64> = vec![5, 5]; got == exp }
pub fn c494_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v[..v.len() / 2].to_vec(); let exp: Vec<i64> = vec![2, 4]; got == exp }
pub fn c495_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v[v.len() / 2..].to_vec(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c495_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v[v.len() / 2..].to_vec(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c495_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v[v.len() / 2..].to_vec(); let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c495_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v[v.len() / 2..].to_vec(); let exp: Vec<i64> = vec![-1, 2]; got == exp }
pub fn c495_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v[v.len() / 2..].to_vec(); let exp: Vec<i64> = vec![6, 8, 10]; got == exp }
pub fn c496_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v[..].to_vec(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c496_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v[..].to_vec(); let exp: Vec<i64> = vec![3]; got == exp }
pub fn c496_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v[..].to_vec(); let exp: Vec<i64> = vec![1, 2, 3]; got == exp }
pub fn c496_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v[..].to_vec(); let exp: Vec<i64> = vec![5, 5, -1, 2]; got == exp }
pub fn c496_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v[..].to_vec(); let exp: Vec<i64> = vec![2, 4, 6, 8, 10]; got == exp }
pub fn c497_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v[v.len().min(1)..v.len()].to_vec(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c497_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v[v.len().min(1)..v.len()].to_vec(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c497_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v[v.len().min(1)..v.len()].to_vec(); let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c497_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v[v.len().min(1)..v.len()].to_vec(); let exp: Vec<i64> = vec![5, -1, 2]; got == exp }
pub fn c497_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v[v.len().min(1)..v.len()].to_vec(); let exp: Vec<i64> = vec![4, 6, 8, 10]; got == exp }
pub fn c498_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.get(1..).map(|x| x.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c498_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.get(1..).map(|x| x.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c498_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.get(1..).map(|x| x.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c498_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.get(1..).map(|x| x.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![5, -1, 2]; got == exp }
pub fn c498_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.get(1..).map(|x| x.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![4, 6, 8, 10]; got == exp }
pub fn c499_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.split_first().map(|(_, r)| r.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c499_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.split_first().map(|(_, r)| r.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c499_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.split_first().map(|(_, r)| r.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![2, 3]; got == exp }
pub fn c499_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.split_first().map(|(_, r)| r.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![5, -1, 2]; got == exp }
pub fn c499_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.split_first().map(|(_, r)| r.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![4, 6, 8, 10]; got == exp }
pub fn c500_0() -> bool { let v: Vec<i64> = vec![]; let got: Vec<i64> = v.split_last().map(|(_, r)| r.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c500_1() -> bool { let v: Vec<i64> = vec![3]; let got: Vec<i64> = v.split_last().map(|(_, r)| r.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![]; got == exp }
pub fn c500_2() -> bool { let v: Vec<i64> = vec![1, 2, 3]; let got: Vec<i64> = v.split_last().map(|(_, r)| r.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![1, 2]; got == exp }
pub fn c500_3() -> bool { let v: Vec<i64> = vec![5, 5, -1, 2]; let got: Vec<i64> = v.split_last().map(|(_, r)| r.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![5, 5, -1]; got == exp }
pub fn c500_4() -> bool { let v: Vec<i64> = vec![2, 4, 6, 8, 10]; let got: Vec<i64> = v.split_last().map(|(_, r)| r.to_vec()).unwrap_or_default(); let exp: Vec<i64> = vec![2, 4, 6, 8]; got == exp }
pub fn c501_0() -> bool { let s: &str = ""; let got: usize = s.as_bytes().len(); let exp: usize = 0; got == exp }
pub fn s501_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.as_bytes().len(); let exp: usize = 0; got == exp }
pub fn c501_1() -> bool { let s: &str = "a"; let got: usize = s.as_bytes().len(); let exp: usize = 1; got == exp }
pub fn s501_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.as_bytes().len(); let exp: usize = 1; got == exp }
pub fn c501_2() -> bool { let s: &str = "abc"; let got: usize = s.as_bytes().len(); let exp: usize = 3; got == exp }
pub fn s501_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.as_bytes().len(); let exp: usize = 3; got == exp }
pub fn c501_3() -> bool { let s: &str = "%a1"; let got: usize = s.as_bytes().len(); let exp: usize = 3; got == exp }
pub fn s501_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.as_bytes().len(); let exp: usize = 3; got == exp }
pub fn c501_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.as_bytes().len(); let exp: usize = 4; got == exp }
pub fn s501_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.as_bytes().len(); let exp: usize = 4; got == exp }
pub fn c501_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.as_bytes().len(); let exp: usize = 5; got == exp }
pub fn s501_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.as_bytes().len(); let exp: usize = 5; got == exp }
pub fn c501_6() -> bool { let s: &str = "::"; let got: usize = s.as_bytes().len(); let exp: usize = 2; got == exp }
pub fn s501_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.as_bytes().len(); let exp: usize = 2; got == exp }
pub fn c501_7() -> bool { let s: &str = "  x "; let got: usize = s.as_bytes().len(); let exp: usize = 4; got == exp }
pub fn s501_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.as_bytes().len(); let exp: usize = 4; got == exp }
pub fn c501_8() -> bool { let s: &str = "12"; let got: usize = s.as_bytes().len(); let exp: usize = 2; got == exp }
pub fn s501_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.as_bytes().len(); let exp: usize = 2; got == exp }
pub fn c501_9() -> bool { let s: &str = "-5"; let got: usize = s.as_bytes().len(); let exp: usize = 2; got == exp }
pub fn s501_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.as_bytes().len(); let exp: usize = 2; got == exp }
pub fn c501_10() -> bool { let s: &str = "+7"; let got: usize = s.as_bytes().len(); let exp: usize = 2; got == exp }
pub fn s501_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.as_bytes().len(); let exp: usize = 2; got == exp }
pub fn c501_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.as_bytes().len(); let exp: usize = 20; got == exp }
pub fn s501_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.as_bytes().len(); let exp: usize = 20; got == exp }
pub fn c501_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.as_bytes().len(); let exp: usize = 6; got == exp }
pub fn s501_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.as_bytes().len(); let exp: usize = 6; got == exp }
pub fn c501_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.as_bytes().len(); let exp: usize = 6; got == exp }
pub fn s501_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.as_bytes().len(); let exp: usize = 6; got == exp }
pub fn c501_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.as_bytes().len(); let exp: usize = 5; got == exp }
pub fn s501_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.as_bytes().len(); let exp: usize = 5; got == exp }
pub fn c501_15() -> bool { let s: &str = "xx"; let got: usize = s.as_bytes().len(); let exp: usize = 2; got == exp }
pub fn s501_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.as_bytes().len(); let exp: usize = 2; got == exp }
pub fn c502_0() -> bool { let s: &str = ""; let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn s502_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn c502_1() -> bool { let s: &str = "a"; let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn s502_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn c502_2() -> bool { let s: &str = "abc"; let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn s502_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn c502_3() -> bool { let s: &str = "%a1"; let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn s502_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn c502_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn s502_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn c502_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 2; got == exp }
pub fn s502_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 2; got == exp }
pub fn c502_6() -> bool { let s: &str = "::"; let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 2; got == exp }
pub fn s502_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 2; got == exp }
pub fn c502_7() -> bool { let s: &str = "  x "; let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn s502_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn c502_8() -> bool { let s: &str = "12"; let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn s502_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn c502_9() -> bool { let s: &str = "-5"; let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn s502_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn c502_10() -> bool { let s: &str = "+7"; let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn s502_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn c502_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn s502_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn c502_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn s502_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn c502_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn s502_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn c502_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn s502_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn c502_15() -> bool { let s: &str = "xx"; let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn s502_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.as_bytes().iter().filter(|b| **b == b':').count(); let exp: usize = 0; got == exp }
pub fn c503_0() -> bool { let s: &str = ""; let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 0; got == exp }
pub fn s503_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 0; got == exp }
pub fn c503_1() -> bool { let s: &str = "a"; let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 1; got == exp }
pub fn s503_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 1; got == exp }
pub fn c503_2() -> bool { let s: &str = "abc"; let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 3; got == exp }
pub fn s503_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 3; got == exp }
pub fn c503_3() -> bool { let s: &str = "%a1"; let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 3; got == exp }
pub fn s503_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 3; got == exp }
pub fn c503_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 2; got == exp }
pub fn s503_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 2; got == exp }
pub fn c503_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 5; got == exp }
pub fn s503_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 5; got == exp }
pub fn c503_6() -> bool { let s: &str = "::"; let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 2; got == exp }
pub fn s503_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 2; got == exp }
pub fn c503_7() -> bool { let s: &str = "  x "; let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 4; got == exp }
pub fn s503_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 4; got == exp }
pub fn c503_8() -> bool { let s: &str = "12"; let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 2; got == exp }
pub fn s503_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 2; got == exp }
pub fn c503_9() -> bool { let s: &str = "-5"; let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 2; got == exp }
pub fn s503_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 2; got == exp }
pub fn c503_10() -> bool { let s: &str = "+7"; let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 2; got == exp }
pub fn s503_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 2; got == exp }
pub fn c503_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 20; got == exp }
pub fn s503_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 20; got == exp }
pub fn c503_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 6; got == exp }
pub fn s503_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 6; got == exp }
pub fn c503_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 0; got == exp }
pub fn s503_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 0; got == exp }
pub fn c503_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 1; got == exp }
pub fn s503_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 1; got == exp }
pub fn c503_15() -> bool { let s: &str = "xx"; let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 2; got == exp }
pub fn s503_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.bytes().filter(|b| *b < 128).count(); let exp: usize = 2; got == exp }
pub fn c504_0() -> bool { let s: &str = ""; let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn s504_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn c504_1() -> bool { let s: &str = "a"; let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn s504_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn c504_2() -> bool { let s: &str = "abc"; let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn s504_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn c504_3() -> bool { let s: &str = "%a1"; let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn s504_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn c504_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn s504_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn c504_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn s504_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn c504_6() -> bool { let s: &str = "::"; let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn s504_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn c504_7() -> bool { let s: &str = "  x "; let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn s504_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn c504_8() -> bool { let s: &str = "12"; let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn s504_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn c504_9() -> bool { let s: &str = "-5"; let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn s504_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn c504_10() -> bool { let s: &str = "+7"; let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn s504_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn c504_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn s504_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn c504_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn s504_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn c504_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn s504_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn c504_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn s504_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn c504_15() -> bool { let s: &str = "xx"; let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn s504_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.get(1..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn c505_0() -> bool { let s: &str = ""; let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn s505_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn c505_1() -> bool { let s: &str = "a"; let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn s505_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn c505_2() -> bool { let s: &str = "abc"; let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn s505_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn c505_3() -> bool { let s: &str = "%a1"; let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn s505_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn c505_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn s505_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn c505_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn s505_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn c505_6() -> bool { let s: &str = "::"; let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn s505_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn c505_7() -> bool { let s: &str = "  x "; let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn s505_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn c505_8() -> bool { let s: &str = "12"; let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn s505_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn c505_9() -> bool { let s: &str = "-5"; let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn s505_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn c505_10() -> bool { let s: &str = "+7"; let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn s505_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn c505_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn s505_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn c505_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn s505_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn c505_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn s505_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn c505_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn s505_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn c505_15() -> bool { let s: &str = "xx"; let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn s505_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.get(..2).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn c506_0() -> bool { let s: &str = ""; let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn s506_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn c506_1() -> bool { let s: &str = "a"; let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn s506_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn c506_2() -> bool { let s: &str = "abc"; let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 0; got == exp }
pub fn s506_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 0; got == exp }
pub fn c506_3() -> bool { let s: &str = "%a1"; let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 0; got == exp }
pub fn s506_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 0; got == exp }
pub fn c506_4() -> bool { let s: &str = "\u{e9}%x"; let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn s506_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn c506_5() -> bool { let s: &str = "a:b:c"; let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn s506_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 2; got == exp }
pub fn c506_6() -> bool { let s: &str = "::"; let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn s506_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn c506_7() -> bool { let s: &str = "  x "; let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn s506_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 1; got == exp }
pub fn c506_8() -> bool { let s: &str = "12"; let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn s506_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn c506_9() -> bool { let s: &str = "-5"; let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn s506_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn c506_10() -> bool { let s: &str = "+7"; let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn s506_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn c506_11() -> bool { let s: &str = "99999999999999999999"; let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 17; got == exp }
pub fn s506_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 17; got == exp }
pub fn c506_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 3; got == exp }
pub fn s506_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 3; got == exp }
pub fn c506_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 3; got == exp }
pub fn s506_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 3; got == exp }
pub fn c506_14() -> bool { let s: &str = "\u{1f600}z"; let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn s506_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn c506_15() -> bool { let s: &str = "xx"; let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn s506_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: usize = s.get(3..).map(|x| x.len()).unwrap_or(9); let exp: usize = 9; got == exp }
pub fn c507_0() -> bool { let s: &str = ""; let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn s507_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn c507_1() -> bool { let s: &str = "a"; let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = true; got == exp }
pub fn s507_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = true; got == exp }
pub fn c507_2() -> bool { let s: &str = "abc"; let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = true; got == exp }
pub fn s507_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = true; got == exp }
pub fn c507_3() -> bool { let s: &str = "%a1"; let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn s507_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn c507_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn s507_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn c507_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = true; got == exp }
pub fn s507_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = true; got == exp }
pub fn c507_6() -> bool { let s: &str = "::"; let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn s507_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn c507_7() -> bool { let s: &str = "  x "; let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn s507_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn c507_8() -> bool { let s: &str = "12"; let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn s507_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn c507_9() -> bool { let s: &str = "-5"; let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn s507_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn c507_10() -> bool { let s: &str = "+7"; let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn s507_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn c507_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn s507_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn c507_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = true; got == exp }
pub fn s507_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = true; got == exp }
pub fn c507_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn s507_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn c507_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn s507_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn c507_15() -> bool { let s: &str = "xx"; let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn s507_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.as_bytes().first() == Some(&b'a'); let exp: bool = false; got == exp }
pub fn c508_0() -> bool { let s: &str = ""; let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn s508_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn c508_1() -> bool { let s: &str = "a"; let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn s508_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn c508_2() -> bool { let s: &str = "abc"; let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn s508_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn c508_3() -> bool { let s: &str = "%a1"; let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn s508_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn c508_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.starts_with('\u{e9}'); let exp: bool = true; got == exp }
pub fn s508_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.starts_with('\u{e9}'); let exp: bool = true; got == exp }
pub fn c508_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn s508_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn c508_6() -> bool { let s: &str = "::"; let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn s508_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn c508_7() -> bool { let s: &str = "  x "; let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn s508_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn c508_8() -> bool { let s: &str = "12"; let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn s508_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn c508_9() -> bool { let s: &str = "-5"; let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn s508_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn c508_10() -> bool { let s: &str = "+7"; let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn s508_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn c508_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn s508_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn c508_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn s508_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn c508_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn s508_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn c508_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn s508_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn c508_15() -> bool { let s: &str = "xx"; let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn s508_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.starts_with('\u{e9}'); let exp: bool = false; got == exp }
pub fn c509_0() -> bool { let s: &str = ""; let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn s509_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn c509_1() -> bool { let s: &str = "a"; let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn s509_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn c509_2() -> bool { let s: &str = "abc"; let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn s509_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn c509_3() -> bool { let s: &str = "%a1"; let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn s509_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn c509_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn s509_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn c509_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn s509_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn c509_6() -> bool { let s: &str = "::"; let got: bool = s.chars().next() == Some(':'); let exp: bool = true; got == exp }
pub fn s509_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.chars().next() == Some(':'); let exp: bool = true; got == exp }
pub fn c509_7() -> bool { let s: &str = "  x "; let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn s509_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn c509_8() -> bool { let s: &str = "12"; let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn s509_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn c509_9() -> bool { let s: &str = "-5"; let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn s509_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn c509_10() -> bool { let s: &str = "+7"; let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn s509_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn c509_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn s509_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn c509_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn s509_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn c509_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn s509_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn c509_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn s509_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn c509_15() -> bool { let s: &str = "xx"; let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn s509_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.chars().next() == Some(':'); let exp: bool = false; got == exp }
pub fn c510_0() -> bool { let s: &str = ""; let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn s510_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn c510_1() -> bool { let s: &str = "a"; let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn s510_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn c510_2() -> bool { let s: &str = "abc"; let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn s510_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn c510_3() -> bool { let s: &str = "%a1"; let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = true; got == exp }
pub fn s510_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = true; got == exp }
pub fn c510_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn s510_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn c510_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn s510_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn c510_6() -> bool { let s: &str = "::"; let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = true; got == exp }
pub fn s510_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = true; got == exp }
pub fn c510_7() -> bool { let s: &str = "  x "; let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn s510_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn c510_8() -> bool { let s: &str = "12"; let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn s510_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn c510_9() -> bool { let s: &str = "-5"; let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = true; got == exp }
pub fn s510_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = true; got == exp }
pub fn c510_10() -> bool { let s: &str = "+7"; let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = true; got == exp }
pub fn s510_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = true; got == exp }
pub fn c510_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn s510_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn c510_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn s510_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn c510_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn s510_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn c510_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn s510_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn c510_15() -> bool { let s: &str = "xx"; let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn s510_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.chars().next().map_or(false, |c| c.is_ascii_punctuation()); let exp: bool = false; got == exp }
pub fn c511_0() -> bool { let s: &str = ""; let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn s511_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn c511_1() -> bool { let s: &str = "a"; let got: bool = s.get(0..1) == Some("a"); let exp: bool = true; got == exp }
pub fn s511_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.get(0..1) == Some("a"); let exp: bool = true; got == exp }
pub fn c511_2() -> bool { let s: &str = "abc"; let got: bool = s.get(0..1) == Some("a"); let exp: bool = true; got == exp }
pub fn s511_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.get(0..1) == Some("a"); let exp: bool = true; got == exp }
pub fn c511_3() -> bool { let s: &str = "%a1"; let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn s511_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn c511_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn s511_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn c511_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.get(0..1) == Some("a"); let exp: bool = true; got == exp }
pub fn s511_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.get(0..1) == Some("a"); let exp: bool = true; got == exp }
pub fn c511_6() -> bool { let s: &str = "::"; let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn s511_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn c511_7() -> bool { let s: &str = "  x "; let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn s511_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn c511_8() -> bool { let s: &str = "12"; let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn s511_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn c511_9() -> bool { let s: &str = "-5"; let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn s511_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn c511_10() -> bool { let s: &str = "+7"; let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn s511_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn c511_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn s511_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn c511_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.get(0..1) == Some("a"); let exp: bool = true; got == exp }
pub fn s511_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.get(0..1) == Some("a"); let exp: bool = true; got == exp }
pub fn c511_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn s511_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn c511_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn s511_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn c511_15() -> bool { let s: &str = "xx"; let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn s511_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.get(0..1) == Some("a"); let exp: bool = false; got == exp }
pub fn c512_0() -> bool { let s: &str = ""; let got: bool = s.is_char_boundary(1); let exp: bool = false; got == exp }
pub fn s512_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.is_char_boundary(1); let exp: bool = false; got == exp }
pub fn c512_1() -> bool { let s: &str = "a"; let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn s512_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn c512_2() -> bool { let s: &str = "abc"; let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn s512_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn c512_3() -> bool { let s: &str = "%a1"; let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn s512_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn c512_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.is_char_boundary(1); let exp: bool = false; got == exp }
pub fn s512_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.is_char_boundary(1); let exp: bool = false; got == exp }
pub fn c512_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn s512_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn c512_6() -> bool { let s: &str = "::"; let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn s512_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn c512_7() -> bool { let s: &str = "  x "; let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn s512_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn c512_8() -> bool { let s: &str = "12"; let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn s512_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn c512_9() -> bool { let s: &str = "-5"; let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn s512_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn c512_10() -> bool { let s: &str = "+7"; let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn s512_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn c512_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn s512_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn c512_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn s512_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn c512_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.is_char_boundary(1); let exp: bool = false; got == exp }
pub fn s512_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.is_char_boundary(1); let exp: bool = false; got == exp }
pub fn c512_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.is_char_boundary(1); let exp: bool = false; got == exp }
pub fn s512_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.is_char_boundary(1); let exp: bool = false; got == exp }
pub fn c512_15() -> bool { let s: &str = "xx"; let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn s512_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.is_char_boundary(1); let exp: bool = true; got == exp }
pub fn c513_0() -> bool { let s: &str = ""; let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn s513_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn c513_1() -> bool { let s: &str = "a"; let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn s513_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn c513_2() -> bool { let s: &str = "abc"; let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn s513_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn c513_3() -> bool { let s: &str = "%a1"; let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = true; got == exp }
pub fn s513_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = true; got == exp }
pub fn c513_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn s513_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn c513_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn s513_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn c513_6() -> bool { let s: &str = "::"; let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn s513_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn c513_7() -> bool { let s: &str = "  x "; let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn s513_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn c513_8() -> bool { let s: &str = "12"; let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn s513_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn c513_9() -> bool { let s: &str = "-5"; let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn s513_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn c513_10() -> bool { let s: &str = "+7"; let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn s513_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn c513_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn s513_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn c513_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn s513_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn c513_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn s513_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn c513_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn s513_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn c513_15() -> bool { let s: &str = "xx"; let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn s513_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.bytes().next() == Some(b'%'); let exp: bool = false; got == exp }
pub fn c514_0() -> bool { let s: &str = ""; let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn s514_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn c514_1() -> bool { let s: &str = "a"; let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn s514_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn c514_2() -> bool { let s: &str = "abc"; let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn s514_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn c514_3() -> bool { let s: &str = "%a1"; let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn s514_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn c514_4() -> bool { let s: &str = "\u{e9}%x"; let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = false; got == exp }
pub fn s514_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = false; got == exp }
pub fn c514_5() -> bool { let s: &str = "a:b:c"; let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn s514_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn c514_6() -> bool { let s: &str = "::"; let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn s514_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn c514_7() -> bool { let s: &str = "  x "; let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = false; got == exp }
pub fn s514_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = false; got == exp }
pub fn c514_8() -> bool { let s: &str = "12"; let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn s514_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn c514_9() -> bool { let s: &str = "-5"; let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn s514_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn c514_10() -> bool { let s: &str = "+7"; let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn s514_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn c514_11() -> bool { let s: &str = "99999999999999999999"; let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn s514_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn c514_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = false; got == exp }
pub fn s514_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = false; got == exp }
pub fn c514_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = false; got == exp }
pub fn s514_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = false; got == exp }
pub fn c514_14() -> bool { let s: &str = "\u{1f600}z"; let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = false; got == exp }
pub fn s514_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = false; got == exp }
pub fn c514_15() -> bool { let s: &str = "xx"; let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn s514_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: bool = s.chars().all(|c| c.is_ascii_graphic()); let exp: bool = true; got == exp }
pub fn c515_0() -> bool { let s: &str = ""; let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{3e}\u{30}\u{a}"); got == exp }
pub fn s515_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{3e}\u{30}\u{a}"); got == exp }
pub fn c515_1() -> bool { let s: &str = "a"; let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{61}\u{3e}\u{31}\u{a}"); got == exp }
pub fn s515_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{61}\u{3e}\u{31}\u{a}"); got == exp }
pub fn c515_2() -> bool { let s: &str = "abc"; let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{61}\u{62}\u{63}\u{3e}\u{33}\u{a}"); got == exp }
pub fn s515_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{61}\u{62}\u{63}\u{3e}\u{33}\u{a}"); got == exp }
pub fn c515_3() -> bool { let s: &str = "%a1"; let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{25}\u{61}\u{31}\u{3e}\u{33}\u{a}"); got == exp }
pub fn s515_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{25}\u{61}\u{31}\u{3e}\u{33}\u{a}"); got == exp }
pub fn c515_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{e9}\u{25}\u{78}\u{3e}\u{34}\u{a}"); got == exp }
pub fn s515_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{e9}\u{25}\u{78}\u{3e}\u{34}\u{a}"); got == exp }
pub fn c515_5() -> bool { let s: &str = "a:b:c"; let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{61}\u{3a}\u{62}\u{3a}\u{63}\u{3e}\u{35}\u{a}"); got == exp }
pub fn s515_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{61}\u{3a}\u{62}\u{3a}\u{63}\u{3e}\u{35}\u{a}"); got == exp }
pub fn c515_6() -> bool { let s: &str = "::"; let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{3a}\u{3a}\u{3e}\u{32}\u{a}"); got == exp }
pub fn s515_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{3a}\u{3a}\u{3e}\u{32}\u{a}"); got == exp }
pub fn c515_7() -> bool { let s: &str = "  x "; let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{20}\u{20}\u{78}\u{20}\u{3e}\u{34}\u{a}"); got == exp }
pub fn s515_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{20}\u{20}\u{78}\u{20}\u{3e}\u{34}\u{a}"); got == exp }
pub fn c515_8() -> bool { let s: &str = "12"; let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{31}\u{32}\u{3e}\u{32}\u{a}"); got == exp }
pub fn s515_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{31}\u{32}\u{3e}\u{32}\u{a}"); got == exp }
pub fn c515_9() -> bool { let s: &str = "-5"; let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{2d}\u{35}\u{3e}\u{32}\u{a}"); got == exp }
pub fn s515_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{2d}\u{35}\u{3e}\u{32}\u{a}"); got == exp }
pub fn c515_10() -> bool { let s: &str = "+7"; let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{2b}\u{37}\u{3e}\u{32}\u{a}"); got == exp }
pub fn s515_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{2b}\u{37}\u{3e}\u{32}\u{a}"); got == exp }
pub fn c515_11() -> bool { let s: &str = "99999999999999999999"; let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{3e}\u{32}\u{30}\u{a}"); got == exp }
pub fn s515_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{3e}\u{32}\u{30}\u{a}"); got == exp }
pub fn c515_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}\u{3e}\u{36}\u{a}"); got == exp }
pub fn s515_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}\u{3e}\u{36}\u{a}"); got == exp }
pub fn c515_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{65e5}\u{672c}\u{3e}\u{36}\u{a}"); got == exp }
pub fn s515_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{65e5}\u{672c}\u{3e}\u{36}\u{a}"); got == exp }
pub fn c515_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{1f600}\u{7a}\u{3e}\u{35}\u{a}"); got == exp }
pub fn s515_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{1f600}\u{7a}\u{3e}\u{35}\u{a}"); got == exp }
pub fn c515_15() -> bool { let s: &str = "xx"; let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{78}\u{78}\u{3e}\u{32}\u{a}"); got == exp }
pub fn s515_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r }; let exp: String = String::from("\u{3c}\u{78}\u{78}\u{3e}\u{32}\u{a}"); got == exp }
pub fn c516_0() -> bool { let s: &str = ""; let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}"); got == exp }
pub fn s516_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}"); got == exp }
pub fn c516_1() -> bool { let s: &str = "a"; let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{61}\u{61}"); got == exp }
pub fn s516_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{61}\u{61}"); got == exp }
pub fn c516_2() -> bool { let s: &str = "abc"; let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{61}\u{62}\u{63}\u{61}\u{62}\u{63}"); got == exp }
pub fn s516_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{61}\u{62}\u{63}\u{61}\u{62}\u{63}"); got == exp }
pub fn c516_3() -> bool { let s: &str = "%a1"; let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{25}\u{61}\u{31}\u{25}\u{61}\u{31}"); got == exp }
pub fn s516_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{25}\u{61}\u{31}\u{25}\u{61}\u{31}"); got == exp }
pub fn c516_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{e9}\u{25}\u{78}\u{e9}\u{25}\u{78}"); got == exp }
pub fn s516_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{e9}\u{25}\u{78}\u{e9}\u{25}\u{78}"); got == exp }
pub fn c516_5() -> bool { let s: &str = "a:b:c"; let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{61}\u{3a}\u{62}\u{3a}\u{63}\u{61}\u{62}\u{63}"); got == exp }
pub fn s516_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{61}\u{3a}\u{62}\u{3a}\u{63}\u{61}\u{62}\u{63}"); got == exp }
pub fn c516_6() -> bool { let s: &str = "::"; let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{3a}\u{3a}"); got == exp }
pub fn s516_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{3a}\u{3a}"); got == exp }
pub fn c516_7() -> bool { let s: &str = "  x "; let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{20}\u{20}\u{78}\u{20}\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s516_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{20}\u{20}\u{78}\u{20}\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c516_8() -> bool { let s: &str = "12"; let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{31}\u{32}\u{31}\u{32}"); got == exp }
pub fn s516_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{31}\u{32}\u{31}\u{32}"); got == exp }
pub fn c516_9() -> bool { let s: &str = "-5"; let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{2d}\u{35}\u{2d}\u{35}"); got == exp }
pub fn s516_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{2d}\u{35}\u{2d}\u{35}"); got == exp }
pub fn c516_10() -> bool { let s: &str = "+7"; let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{2b}\u{37}\u{2b}\u{37}"); got == exp }
pub fn s516_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{2b}\u{37}\u{2b}\u{37}"); got == exp }
pub fn c516_11() -> bool { let s: &str = "99999999999999999999"; let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s516_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c516_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s516_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c516_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{65e5}\u{672c}\u{65e5}\u{672c}"); got == exp }
pub fn s516_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{65e5}\u{672c}\u{65e5}\u{672c}"); got == exp }
pub fn c516_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{1f600}\u{7a}\u{1f600}\u{7a}"); got == exp }
pub fn s516_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{1f600}\u{7a}\u{1f600}\u{7a}"); got == exp }
pub fn c516_15() -> bool { let s: &str = "xx"; let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{78}\u{78}\u{78}\u{78}"); got == exp }
pub fn s516_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r }; let exp: String = String::from("\u{2d}\u{78}\u{78}\u{78}\u{78}"); got == exp }
pub fn c517_0() -> bool { let s: &str = ""; let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{3b}"); got == exp }
pub fn s517_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{3b}"); got == exp }
pub fn c517_1() -> bool { let s: &str = "a"; let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{61}\u{3b}"); got == exp }
pub fn s517_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{61}\u{3b}"); got == exp }
pub fn c517_2() -> bool { let s: &str = "abc"; let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{61}\u{62}\u{63}\u{3b}"); got == exp }
pub fn s517_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{61}\u{62}\u{63}\u{3b}"); got == exp }
pub fn c517_3() -> bool { let s: &str = "%a1"; let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{25}\u{61}\u{31}\u{3b}"); got == exp }
pub fn s517_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{25}\u{61}\u{31}\u{3b}"); got == exp }
pub fn c517_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{e9}\u{25}\u{78}\u{3b}"); got == exp }
pub fn s517_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{e9}\u{25}\u{78}\u{3b}"); got == exp }
pub fn c517_5() -> bool { let s: &str = "a:b:c"; let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{61}\u{3b}\u{62}\u{3b}\u{63}\u{3b}"); got == exp }
pub fn s517_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{61}\u{3b}\u{62}\u{3b}\u{63}\u{3b}"); got == exp }
pub fn c517_6() -> bool { let s: &str = "::"; let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{3b}\u{3b}\u{3b}"); got == exp }
pub fn s517_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{3b}\u{3b}\u{3b}"); got == exp }
pub fn c517_7() -> bool { let s: &str = "  x "; let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}\u{3b}"); got == exp }
pub fn s517_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}\u{3b}"); got == exp }
pub fn c517_8() -> bool { let s: &str = "12"; let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{31}\u{32}\u{3b}"); got == exp }
pub fn s517_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{31}\u{32}\u{3b}"); got == exp }
pub fn c517_9() -> bool { let s: &str = "-5"; let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{2d}\u{35}\u{3b}"); got == exp }
pub fn s517_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{2d}\u{35}\u{3b}"); got == exp }
pub fn c517_10() -> bool { let s: &str = "+7"; let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{2b}\u{37}\u{3b}"); got == exp }
pub fn s517_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{2b}\u{37}\u{3b}"); got == exp }
pub fn c517_11() -> bool { let s: &str = "99999999999999999999"; let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{3b}"); got == exp }
pub fn s517_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{3b}"); got == exp }
pub fn c517_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}\u{3b}"); got == exp }
pub fn s517_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}\u{3b}"); got == exp }
pub fn c517_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{65e5}\u{672c}\u{3b}"); got == exp }
pub fn s517_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{65e5}\u{672c}\u{3b}"); got == exp }
pub fn c517_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{1f600}\u{7a}\u{3b}"); got == exp }
pub fn s517_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{1f600}\u{7a}\u{3b}"); got == exp }
pub fn c517_15() -> bool { let s: &str = "xx"; let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{78}\u{78}\u{3b}"); got == exp }
pub fn s517_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r }; let exp: String = String::from("\u{78}\u{78}\u{3b}"); got == exp }
pub fn c518_0() -> bool { let s: &str = ""; let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from(""); got == exp }
pub fn s518_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from(""); got == exp }
pub fn c518_1() -> bool { let s: &str = "a"; let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{61}"); got == exp }
pub fn s518_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{61}"); got == exp }
pub fn c518_2() -> bool { let s: &str = "abc"; let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn s518_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn c518_3() -> bool { let s: &str = "%a1"; let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{25}\u{61}\u{31}"); got == exp }
pub fn s518_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{25}\u{61}\u{31}"); got == exp }
pub fn c518_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn s518_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{e9}\u{25}\u{78}"); got == exp }
pub fn c518_5() -> bool { let s: &str = "a:b:c"; let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn s518_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{61}\u{62}\u{63}"); got == exp }
pub fn c518_6() -> bool { let s: &str = "::"; let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from(""); got == exp }
pub fn s518_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from(""); got == exp }
pub fn c518_7() -> bool { let s: &str = "  x "; let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn s518_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}"); got == exp }
pub fn c518_8() -> bool { let s: &str = "12"; let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn s518_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{31}\u{32}"); got == exp }
pub fn c518_9() -> bool { let s: &str = "-5"; let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn s518_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{2d}\u{35}"); got == exp }
pub fn c518_10() -> bool { let s: &str = "+7"; let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn s518_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{2b}\u{37}"); got == exp }
pub fn c518_11() -> bool { let s: &str = "99999999999999999999"; let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn s518_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}"); got == exp }
pub fn c518_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn s518_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}"); got == exp }
pub fn c518_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn s518_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{65e5}\u{672c}"); got == exp }
pub fn c518_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn s518_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{1f600}\u{7a}"); got == exp }
pub fn c518_15() -> bool { let s: &str = "xx"; let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn s518_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }); let exp: String = String::from("\u{78}\u{78}"); got == exp }
pub fn c519_0() -> bool { let s: &str = ""; let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{7c}"); got == exp }
pub fn s519_0(s: &'static str) -> bool { if !(s == "") { return true; } let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{7c}"); got == exp }
pub fn c519_1() -> bool { let s: &str = "a"; let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{61}\u{7c}"); got == exp }
pub fn s519_1(s: &'static str) -> bool { if !(s == "a") { return true; } let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{61}\u{7c}"); got == exp }
pub fn c519_2() -> bool { let s: &str = "abc"; let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{61}\u{62}\u{63}\u{7c}"); got == exp }
pub fn s519_2(s: &'static str) -> bool { if !(s == "abc") { return true; } let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{61}\u{62}\u{63}\u{7c}"); got == exp }
pub fn c519_3() -> bool { let s: &str = "%a1"; let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{25}\u{61}\u{31}\u{7c}"); got == exp }
pub fn s519_3(s: &'static str) -> bool { if !(s == "%a1") { return true; } let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{25}\u{61}\u{31}\u{7c}"); got == exp }
pub fn c519_4() -> bool { let s: &str = "\u{e9}%x"; let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{e9}\u{25}\u{78}\u{7c}"); got == exp }
pub fn s519_4(s: &'static str) -> bool { if !(s == "\u{e9}%x") { return true; } let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{e9}\u{25}\u{78}\u{7c}"); got == exp }
pub fn c519_5() -> bool { let s: &str = "a:b:c"; let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{61}\u{7c}\u{62}\u{7c}\u{63}\u{7c}"); got == exp }
pub fn s519_5(s: &'static str) -> bool { if !(s == "a:b:c") { return true; } let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{61}\u{7c}\u{62}\u{7c}\u{63}\u{7c}"); got == exp }
pub fn c519_6() -> bool { let s: &str = "::"; let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{7c}\u{7c}\u{7c}"); got == exp }
pub fn s519_6(s: &'static str) -> bool { if !(s == "::") { return true; } let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{7c}\u{7c}\u{7c}"); got == exp }
pub fn c519_7() -> bool { let s: &str = "  x "; let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}\u{7c}"); got == exp }
pub fn s519_7(s: &'static str) -> bool { if !(s == "  x ") { return true; } let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{20}\u{20}\u{78}\u{20}\u{7c}"); got == exp }
pub fn c519_8() -> bool { let s: &str = "12"; let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{31}\u{32}\u{7c}"); got == exp }
pub fn s519_8(s: &'static str) -> bool { if !(s == "12") { return true; } let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{31}\u{32}\u{7c}"); got == exp }
pub fn c519_9() -> bool { let s: &str = "-5"; let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{2d}\u{35}\u{7c}"); got == exp }
pub fn s519_9(s: &'static str) -> bool { if !(s == "-5") { return true; } let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{2d}\u{35}\u{7c}"); got == exp }
pub fn c519_10() -> bool { let s: &str = "+7"; let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{2b}\u{37}\u{7c}"); got == exp }
pub fn s519_10(s: &'static str) -> bool { if !(s == "+7") { return true; } let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{2b}\u{37}\u{7c}"); got == exp }
pub fn c519_11() -> bool { let s: &str = "99999999999999999999"; let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{7c}"); got == exp }
pub fn s519_11(s: &'static str) -> bool { if !(s == "99999999999999999999") { return true; } let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{39}\u{7c}"); got == exp }
pub fn c519_12() -> bool { let s: &str = "a\u{a}b\u{d}\u{a}c"; let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}\u{7c}"); got == exp }
pub fn s519_12(s: &'static str) -> bool { if !(s == "a\u{a}b\u{d}\u{a}c") { return true; } let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{61}\u{a}\u{62}\u{d}\u{a}\u{63}\u{7c}"); got == exp }
pub fn c519_13() -> bool { let s: &str = "\u{65e5}\u{672c}"; let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{65e5}\u{672c}\u{7c}"); got == exp }
pub fn s519_13(s: &'static str) -> bool { if !(s == "\u{65e5}\u{672c}") { return true; } let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{65e5}\u{672c}\u{7c}"); got == exp }
pub fn c519_14() -> bool { let s: &str = "\u{1f600}z"; let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{1f600}\u{7a}\u{7c}"); got == exp }
pub fn s519_14(s: &'static str) -> bool { if !(s == "\u{1f600}z") { return true; } let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{1f600}\u{7a}\u{7c}"); got == exp }
pub fn c519_15() -> bool { let s: &str = "xx"; let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{78}\u{78}\u{7c}"); got == exp }
pub fn s519_15(s: &'static str) -> bool { if !(s == "xx") { return true; } let got: String = s.split(':').fold(String::new(), |r, x| r + x + "|"); let exp: String = String::from("\u{78}\u{78}\u{7c}"); got == exp }
pub fn c520_0() -> bool { let r: Result<i64, String> = Ok(0); let got: i64 = r.clone().map_or(7, |x| x + 1); let exp: i64 = 1; got == exp }
pub fn c520_1() -> bool { let r: Result<i64, String> = Ok(3); let got: i64 = r.clone().map_or(7, |x| x + 1); let exp: i64 = 4; got == exp }
pub fn c520_2() -> bool { let r: Result<i64, String> = Err("bad".to_string()); let got: i64 = r.clone().map_or(7, |x| x + 1); let exp: i64 = 7; got == exp }
pub fn c521_0() -> bool { let r: Result<i64, String> = Ok(0); let got: i64 = r.clone().or_else(|e| if e.len() == 3 { Ok::<i64, String>(5) } else { Err(e) }).unwrap_or(0); let exp: i64 = 0; got == exp }
pub fn c521_1() -> bool { let r: Result<i64, String> = Ok(3); let got: i64 = r.clone().or_else(|e| if e.len() == 3 { Ok::<i64, String>(5) } else { Err(e) }).unwrap_or(0); let exp: i64 = 3; got == exp }
pub fn c521_2() -> bool { let r: Result<i64, String> = Err("bad".to_string()); let got: i64 = r.clone().or_else(|e| if e.len() == 3 { Ok::<i64, String>(5) } else { Err(e) }).unwrap_or(0); let exp: i64 = 5; got == exp }
pub fn c522_0() -> bool { let r: Result<i64, String> = Ok(0); let got: i64 = r.iter().map(|x| x + 1).next().unwrap_or(-1); let exp: i64 = 1; got == exp }
pub fn c522_1() -> bool { let r: Result<i64, String> = Ok(3); let got: i64 = r.iter().map(|x| x + 1).next().unwrap_or(-1); let exp: i64 = 4; got == exp }
pub fn c522_2() -> bool { let r: Result<i64, String> = Err("bad".to_string()); let got: i64 = r.iter().map(|x| x + 1).next().unwrap_or(-1); let exp: i64 = -1; got == exp }
pub fn c523_0() -> bool { let r: Result<i64, String> = Ok(0); let got: i64 = r.clone().into_iter().count() as i64; let exp: i64 = 1; got == exp }
pub fn c523_1() -> bool { let r: Result<i64, String> = Ok(3); let got: i64 = r.clone().into_iter().count() as i64; let exp: i64 = 1; got == exp }
pub fn c523_2() -> bool { let r: Result<i64, String> = Err("bad".to_string()); let got: i64 = r.clone().into_iter().count() as i64; let exp: i64 = 0; got == exp }
pub fn c524_0() -> bool { let o: Option<i64> = None; let got: Option<i64> = o.and(Some(5)); let exp: Option<i64> = None; got == exp }
pub fn c524_1() -> bool { let o: Option<i64> = Some(0); let got: Option<i64> = o.and(Some(5)); let exp: Option<i64> = Some(5); got == exp }
pub fn c524_2() -> bool { let o: Option<i64> = Some(3); let got: Option<i64> = o.and(Some(5)); let exp: Option<i64> = Some(5); got == exp }
pub fn c524_3() -> bool { let o: Option<i64> = Some(-4); let got: Option<i64> = o.and(Some(5)); let exp: Option<i64> = Some(5); got == exp }
pub fn c525_0() -> bool { let o: Option<i64> = None; let got: Option<i64> = o.xor(Some(5)); let exp: Option<i64> = Some(5); got == exp }
pub fn c525_1() -> bool { let o: Option<i64> = Some(0); let got: Option<i64> = o.xor(Some(5)); let exp: Option<i64> = None; got == exp }
pub fn c525_2() -> bool { let o: Option<i64> = Some(3); let got: Option<i64> = o.xor(Some(5)); let exp: Option<i64> = None; got == exp }
pub fn c525_3() -> bool { let o: Option<i64> = Some(-4); let got: Option<i64> = o.xor(Some(5)); let exp: Option<i64> = None; got == exp }
pub fn c526_0() -> bool { let o: Option<i64> = None; let got: Option<i64> = o.xor(None); let exp: Option<i64> = None; got == exp }
pub fn c526_1() -> bool { let o: Option<i64> = Some(0); let got: Option<i64> = o.xor(None); let exp: Option<i64> = Some(0); got == exp }
pub fn c526_2() -> bool { let o: Option<i64> = Some(3); let got: Option<i64> = o.xor(None); let exp: Option<i64> = Some(3); got == exp }
pub fn c526_3() -> bool { let o: Option<i64> = Some(-4); let got: Option<i64> = o.xor(None); let exp: Option<i64> = Some(-4); got == exp }
pub fn c527_0() -> bool { let o: Option<i64> = None; let got: Option<i64> = o.and(None::<i64>); let exp: Option<i64> = None; got == exp }
pub fn c527_1() -> bool { let o: Option<i64> = Some(0); let got: Option<i64> = o.and(None::<i64>); let exp: Option<i64> = None; got == exp }
pub fn c527_2() -> bool { let o: Option<i64> = Some(3); let got: Option<i64> = o.and(None::<i64>); let exp: Option<i64> = None; got == exp }
pub fn c527_3() -> bool { let o: Option<i64> = Some(-4); let got: Option<i64> = o.and(None::<i64>); let exp: Option<i64> = None; got == exp }
pub fn c528_0() -> bool { let c: char = 'a'; let got: bool = c.is_ascii_punctuation(); let exp: bool = false; got == exp }
pub fn s528_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = c.is_ascii_punctuation(); let exp: bool = false; got == exp }
pub fn c528_1() -> bool { let c: char = 'Z'; let got: bool = c.is_ascii_punctuation(); let exp: bool = false; got == exp }
pub fn s528_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = c.is_ascii_punctuation(); let exp: bool = false; got == exp }
pub fn c528_2() -> bool { let c: char = '0'; let got: bool = c.is_ascii_punctuation(); let exp: bool = false; got == exp }
pub fn s528_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = c.is_ascii_punctuation(); let exp: bool = false; got == exp }
pub fn c528_3() -> bool { let c: char = '_'; let got: bool = c.is_ascii_punctuation(); let exp: bool = true; got == exp }
pub fn s528_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = c.is_ascii_punctuation(); let exp: bool = true; got == exp }
pub fn c528_4() -> bool { let c: char = ' '; let got: bool = c.is_ascii_punctuation(); let exp: bool = false; got == exp }
pub fn s528_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = c.is_ascii_punctuation(); let exp: bool = false; got == exp }
pub fn c528_5() -> bool { let c: char = '\n'; let got: bool = c.is_ascii_punctuation(); let exp: bool = false; got == exp }
pub fn s528_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = c.is_ascii_punctuation(); let exp: bool = false; got == exp }
pub fn c528_6() -> bool { let c: char = '\u{e9}'; let got: bool = c.is_ascii_punctuation(); let exp: bool = false; got == exp }
pub fn s528_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = c.is_ascii_punctuation(); let exp: bool = false; got == exp }
pub fn c528_7() -> bool { let c: char = '\u{1f600}'; let got: bool = c.is_ascii_punctuation(); let exp: bool = false; got == exp }
pub fn s528_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = c.is_ascii_punctuation(); let exp: bool = false; got == exp }
pub fn c528_8() -> bool { let c: char = '\u{663}'; let got: bool = c.is_ascii_punctuation(); let exp: bool = false; got == exp }
pub fn s528_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = c.is_ascii_punctuation(); let exp: bool = false; got == exp }
pub fn c528_9() -> bool { let c: char = '\u{2028}'; let got: bool = c.is_ascii_punctuation(); let exp: bool = false; got == exp }
pub fn s528_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = c.is_ascii_punctuation(); let exp: bool = false; got == exp }
pub fn c528_10() -> bool { let c: char = ':'; let got: bool = c.is_ascii_punctuation(); let exp: bool = true; got == exp }
pub fn s528_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = c.is_ascii_punctuation(); let exp: bool = true; got == exp }
pub fn c529_0() -> bool { let c: char = 'a'; let got: bool = c.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn s529_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = c.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn c529_1() -> bool { let c: char = 'Z'; let got: bool = c.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn s529_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = c.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn c529_2() -> bool { let c: char = '0'; let got: bool = c.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn s529_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = c.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn c529_3() -> bool { let c: char = '_'; let got: bool = c.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn s529_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = c.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn c529_4() -> bool { let c: char = ' '; let got: bool = c.is_ascii_whitespace(); let exp: bool = true; got == exp }
pub fn s529_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = c.is_ascii_whitespace(); let exp: bool = true; got == exp }
pub fn c529_5() -> bool { let c: char = '\n'; let got: bool = c.is_ascii_whitespace(); let exp: bool = true; got == exp }
pub fn s529_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = c.is_ascii_whitespace(); let exp: bool = true; got == exp }
pub fn c529_6() -> bool { let c: char = '\u{e9}'; let got: bool = c.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn s529_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = c.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn c529_7() -> bool { let c: char = '\u{1f600}'; let got: bool = c.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn s529_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = c.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn c529_8() -> bool { let c: char = '\u{663}'; let got: bool = c.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn s529_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = c.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn c529_9() -> bool { let c: char = '\u{2028}'; let got: bool = c.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn s529_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = c.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn c529_10() -> bool { let c: char = ':'; let got: bool = c.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn s529_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = c.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn c530_0() -> bool { let c: char = 'a'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = true; got == exp }
pub fn s530_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = true; got == exp }
pub fn c530_1() -> bool { let c: char = 'Z'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn s530_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn c530_2() -> bool { let c: char = '0'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = true; got == exp }
pub fn s530_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = true; got == exp }
pub fn c530_3() -> bool { let c: char = '_'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn s530_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn c530_4() -> bool { let c: char = ' '; let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn s530_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn c530_5() -> bool { let c: char = '\n'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn s530_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn c530_6() -> bool { let c: char = '\u{e9}'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn s530_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn c530_7() -> bool { let c: char = '\u{1f600}'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn s530_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn c530_8() -> bool { let c: char = '\u{663}'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn s530_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn c530_9() -> bool { let c: char = '\u{2028}'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn s530_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn c530_10() -> bool { let c: char = ':'; let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn s530_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = c.is_ascii_hexdigit(); let exp: bool = false; got == exp }
pub fn c531_0() -> bool { let c: char = 'a'; let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn s531_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn c531_1() -> bool { let c: char = 'Z'; let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn s531_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn c531_2() -> bool { let c: char = '0'; let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn s531_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn c531_3() -> bool { let c: char = '_'; let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn s531_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn c531_4() -> bool { let c: char = ' '; let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn s531_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn c531_5() -> bool { let c: char = '\n'; let got: bool = c.is_ascii_control(); let exp: bool = true; got == exp }
pub fn s531_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = c.is_ascii_control(); let exp: bool = true; got == exp }
pub fn c531_6() -> bool { let c: char = '\u{e9}'; let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn s531_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn c531_7() -> bool { let c: char = '\u{1f600}'; let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn s531_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn c531_8() -> bool { let c: char = '\u{663}'; let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn s531_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn c531_9() -> bool { let c: char = '\u{2028}'; let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn s531_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn c531_10() -> bool { let c: char = ':'; let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn s531_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = c.is_ascii_control(); let exp: bool = false; got == exp }
pub fn c532_0() -> bool { let c: char = 'a'; let got: bool = c.is_ascii_graphic(); let exp: bool = true; got == exp }
pub fn s532_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = c.is_ascii_graphic(); let exp: bool = true; got == exp }
pub fn c532_1() -> bool { let c: char = 'Z'; let got: bool = c.is_ascii_graphic(); let exp: bool = true; got == exp }
pub fn s532_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = c.is_ascii_graphic(); let exp: bool = true; got == exp }
pub fn c532_2() -> bool { let c: char = '0'; let got: bool = c.is_ascii_graphic(); let exp: bool = true; got == exp }
pub fn s532_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = c.is_ascii_graphic(); let exp: bool = true; got == exp }
pub fn c532_3() -> bool { let c: char = '_'; let got: bool = c.is_ascii_graphic(); let exp: bool = true; got == exp }
pub fn s532_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = c.is_ascii_graphic(); let exp: bool = true; got == exp }
pub fn c532_4() -> bool { let c: char = ' '; let got: bool = c.is_ascii_graphic(); let exp: bool = false; got == exp }
pub fn s532_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = c.is_ascii_graphic(); let exp: bool = false; got == exp }
pub fn c532_5() -> bool { let c: char = '\n'; let got: bool = c.is_ascii_graphic(); let exp: bool = false; got == exp }
pub fn s532_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = c.is_ascii_graphic(); let exp: bool = false; got == exp }
pub fn c532_6() -> bool { let c: char = '\u{e9}'; let got: bool = c.is_ascii_graphic(); let exp: bool = false; got == exp }
pub fn s532_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = c.is_ascii_graphic(); let exp: bool = false; got == exp }
pub fn c532_7() -> bool { let c: char = '\u{1f600}'; let got: bool = c.is_ascii_graphic(); let exp: bool = false; got == exp }
pub fn s532_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = c.is_ascii_graphic(); let exp: bool = false; got == exp }
pub fn c532_8() -> bool { let c: char = '\u{663}'; let got: bool = c.is_ascii_graphic(); let exp: bool = false; got == exp }
pub fn s532_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = c.is_ascii_graphic(); let exp: bool = false; got == exp }
pub fn c532_9() -> bool { let c: char = '\u{2028}'; let got: bool = c.is_ascii_graphic(); let exp: bool = false; got == exp }
pub fn s532_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = c.is_ascii_graphic(); let exp: bool = false; got == exp }
pub fn c532_10() -> bool { let c: char = ':'; let got: bool = c.is_ascii_graphic(); let exp: bool = true; got == exp }
pub fn s532_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = c.is_ascii_graphic(); let exp: bool = true; got == exp }
pub fn c533_0() -> bool { let c: char = 'a'; let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn s533_0(c: char) -> bool { if !(c == 'a') { return true; } let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn c533_1() -> bool { let c: char = 'Z'; let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn s533_1(c: char) -> bool { if !(c == 'Z') { return true; } let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn c533_2() -> bool { let c: char = '0'; let got: bool = c.is_digit(2); let exp: bool = true; got == exp }
pub fn s533_2(c: char) -> bool { if !(c == '0') { return true; } let got: bool = c.is_digit(2); let exp: bool = true; got == exp }
pub fn c533_3() -> bool { let c: char = '_'; let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn s533_3(c: char) -> bool { if !(c == '_') { return true; } let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn c533_4() -> bool { let c: char = ' '; let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn s533_4(c: char) -> bool { if !(c == ' ') { return true; } let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn c533_5() -> bool { let c: char = '\n'; let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn s533_5(c: char) -> bool { if !(c == '\n') { return true; } let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn c533_6() -> bool { let c: char = '\u{e9}'; let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn s533_6(c: char) -> bool { if !(c == '\u{e9}') { return true; } let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn c533_7() -> bool { let c: char = '\u{1f600}'; let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn s533_7(c: char) -> bool { if !(c == '\u{1f600}') { return true; } let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn c533_8() -> bool { let c: char = '\u{663}'; let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn s533_8(c: char) -> bool { if !(c == '\u{663}') { return true; } let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn c533_9() -> bool { let c: char = '\u{2028}'; let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn s533_9(c: char) -> bool { if !(c == '\u{2028}') { return true; } let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn c533_10() -> bool { let c: char = ':'; let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn s533_10(c: char) -> bool { if !(c == ':') { return true; } let got: bool = c.is_digit(2); let exp: bool = false; got == exp }
pub fn c534_0() -> bool { let b: u8 = 0; let got: bool = b.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn s534_0(b: u8) -> bool { if !(b == 0) { return true; } let got: bool = b.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn c534_1() -> bool { let b: u8 = 1; let got: bool = b.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn s534_1(b: u8) -> bool { if !(b == 1) { return true; } let got: bool = b.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn c534_2() -> bool { let b: u8 = 200; let got: bool = b.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn s534_2(b: u8) -> bool { if !(b == 200) { return true; } let got: bool = b.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn c534_3() -> bool { let b: u8 = 255; let got: bool = b.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn s534_3(b: u8) -> bool { if !(b == 255) { return true; } let got: bool = b.is_ascii_digit(); let exp: bool = false; got == exp }
pub fn c535_0() -> bool { let b: u8 = 0; let got: bool = b.is_ascii(); let exp: bool = true; got == exp }
pub fn s535_0(b: u8) -> bool { if !(b == 0) { return true; } let got: bool = b.is_ascii(); let exp: bool = true; got == exp }
pub fn c535_1() -> bool { let b: u8 = 1; let got: bool = b.is_ascii(); let exp: bool = true; got == exp }
pub fn s535_1(b: u8) -> bool { if !(b == 1) { return true; } let got: bool = b.is_ascii(); let exp: bool = true; got == exp }
pub fn c535_2() -> bool { let b: u8 = 200; let got: bool = b.is_ascii(); let exp: bool = false; got == exp }
pub fn s535_2(b: u8) -> bool { if !(b == 200) { return true; } let got: bool = b.is_ascii(); let exp: bool = false; got == exp }
pub fn c535_3() -> bool { let b: u8 = 255; let got: bool = b.is_ascii(); let exp: bool = false; got == exp }
pub fn s535_3(b: u8) -> bool { if !(b == 255) { return true; } let got: bool = b.is_ascii(); let exp: bool = false; got == exp }
pub fn c536_0() -> bool { let b: u8 = 0; let got: bool = b.is_ascii_uppercase(); let exp: bool = false; got == exp }
pub fn s536_0(b: u8) -> bool { if !(b == 0) { return true; } let got: bool = b.is_ascii_uppercase(); let exp: bool = false; got == exp }
pub fn c536_1() -> bool { let b: u8 = 1; let got: bool = b.is_ascii_uppercase(); let exp: bool = false; got == exp }
pub fn s536_1(b: u8) -> bool { if !(b == 1) { return true; } let got: bool = b.is_ascii_uppercase(); let exp: bool = false; got == exp }
pub fn c536_2() -> bool { let b: u8 = 200; let got: bool = b.is_ascii_uppercase(); let exp: bool = false; got == exp }
pub fn s536_2(b: u8) -> bool { if !(b == 200) { return true; } let got: bool = b.is_ascii_uppercase(); let exp: bool = false; got == exp }
pub fn c536_3() -> bool { let b: u8 = 255; let got: bool = b.is_ascii_uppercase(); let exp: bool = false; got == exp }
pub fn s536_3(b: u8) -> bool { if !(b == 255) { return true; } let got: bool = b.is_ascii_uppercase(); let exp: bool = false; got == exp }
pub fn c537_0() -> bool { let b: u8 = 0; let got: bool = b.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn s537_0(b: u8) -> bool { if !(b == 0) { return true; } let got: bool = b.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn c537_1() -> bool { let b: u8 = 1; let got: bool = b.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn s537_1(b: u8) -> bool { if !(b == 1) { return true; } let got: bool = b.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn c537_2() -> bool { let b: u8 = 200; let got: bool = b.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn s537_2(b: u8) -> bool { if !(b == 200) { return true; } let got: bool = b.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn c537_3() -> bool { let b: u8 = 255; let got: bool = b.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn s537_3(b: u8) -> bool { if !(b == 255) { return true; } let got: bool = b.is_ascii_whitespace(); let exp: bool = false; got == exp }
pub fn v0(s: &str) -> usize { s.len() }
pub fn v1(s: &str) -> usize { s.chars().count() }
pub fn v2(s: &str) -> usize { s.lines().count() }
pub fn v3(s: &str) -> usize { s.split(':').count() }
pub fn v4(s: &str) -> usize { s.split_whitespace().count() }
pub fn v5(s: &str) -> usize { s.bytes().len() }
pub fn v6(s: &str) -> usize { s.to_uppercase().len() }
pub fn v7(s: &str) -> bool { s.is_empty() }
pub fn v8(s: &str) -> bool { s.starts_with('a') }
pub fn v9(s: &str) -> bool { s.ends_with('a') }
pub fn v10(s: &str) -> bool { s.contains('a') }
pub fn v11(s: &str) -> bool { s.starts_with(':') }
pub fn v12(s: &str) -> bool { s.starts_with(char::is_numeric) }
pub fn v13(s: &str) -> bool { s.ends_with(|c: char| c == 'c') }
pub fn v14(s: &str) -> bool { s.chars().all(|c| c.is_ascii_digit()) }
pub fn v15(s: &str) -> bool { s.chars().any(|c| c == ':') }
pub fn v16(s: &str) -> bool { s == "abc" }
pub fn v17(s: &str) -> bool { s != "a" }
pub fn v18(s: &str) -> bool { s < "b" }
pub fn v19(s: &str) -> bool { s.chars().next().is_some() }
pub fn v20(s: &str, p: &str) -> bool { s.starts_with(p) }
pub fn v21(s: &str, p: &str) -> bool { s.ends_with(p) }
pub fn v22(s: &str, p: &str) -> bool { s.contains(p) }
pub fn v23(s: &str, p: &str) -> bool { s == p }
pub fn v24(s: &str, p: &str) -> Option<usize> { s.find(p) }
pub fn v25(s: &str, p: &str) -> Option<usize> { s.rfind(p) }
pub fn v26(s: &str) -> Option<usize> { s.find(':') }
pub fn v27(s: &str) -> Option<usize> { s.rfind(':') }
pub fn v28(s: &str) -> Option<usize> { s.find(char::is_numeric) }
pub fn v29<'a>(s: &'a str, p: &'a str) -> Option<&'a str> { s.strip_prefix(p) }
pub fn v30<'a>(s: &'a str, p: &'a str) -> Option<&'a str> { s.strip_suffix(p) }
pub fn v31<'a>(s: &'a str, p: &'a str) -> Option<&'a str> { s.split(p).next() }
pub fn v32<'a>(s: &'a str, p: &'a str) -> Option<&'a str> { s.rsplit(p).next() }
pub fn v33<'a>(s: &'a str) -> Option<&'a str> { s.strip_prefix('%') }
pub fn v34<'a>(s: &'a str) -> Option<&'a str> { s.strip_prefix(':') }
pub fn v35<'a>(s: &'a str) -> Option<&'a str> { s.get(1..) }
pub fn v36<'a>(s: &'a str) -> Option<&'a str> { s.get(0..2) }
pub fn v37<'a>(s: &'a str) -> Option<&'a str> { s.split(':').last() }
pub fn v38<'a>(s: &'a str) -> Option<&'a str> { s.rsplit(':').next() }
pub fn v39<'a>(s: &'a str) -> Option<&'a str> { s.split(':').nth(1) }
pub fn v40<'a>(s: &'a str) -> Option<&'a str> { s.lines().next() }
pub fn v41<'a>(s: &'a str) -> Option<(&'a str, &'a str)> { s.split_once(':') }
pub fn v42<'a>(s: &'a str) -> Option<(&'a str, &'a str)> { s.rsplit_once(':') }
pub fn v43<'a>(s: &'a str, p: &'a str) -> Option<(&'a str, &'a str)> { s.split_once(p) }
pub fn v44<'a>(s: &'a str, p: &'a str) -> Option<(&'a str, &'a str)> { s.rsplit_once(p) }
pub fn v45<'a>(s: &'a str) -> &'a str { s.trim() }
pub fn v46<'a>(s: &'a str) -> &'a str { s.trim_start() }
pub fn v47<'a>(s: &'a str) -> &'a str { s.trim_end() }
pub fn v48<'a>(s: &'a str) -> &'a str { s.trim_start_matches('a') }
pub fn v49<'a>(s: &'a str) -> &'a str { s.trim_end_matches(char::is_numeric) }
pub fn v50<'a>(s: &'a str) -> &'a str { s.trim_start_matches(':') }
pub fn v51<'a>(s: &'a str) -> &'a str { s.trim_end_matches(|c: char| c.is_numeric()) }
pub fn v52(s: &str) -> String { s.to_string() }
pub fn v53(s: &str) -> String { s.to_owned() }
pub fn v54(s: &str) -> String { String::from(s) }
pub fn v55(s: &str) -> String { s.replace('a', "zz") }
pub fn v56(s: &str) -> String { s.replace("a", "") }
pub fn v57(s: &str) -> String { format!("<{}>", s) }
pub fn v58(s: &str) -> String { format!("{s}:{}", s.len()) }
pub fn v59(s: &str) -> String { s.chars().filter(|c| *c != 'a').collect::<String>() }
pub fn v60(s: &str) -> String { s.chars().take(2).collect::<String>() }
pub fn v61(s: &str) -> String { s.chars().skip(1).collect::<String>() }
pub fn v62(s: &str) -> String { s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>() }
pub fn v63(s: &str) -> String { { let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\'); } r.push(c); } r } }
pub fn v64(s: &str) -> String { { let mut r = s.to_string(); r.push('x'); r.push_str("yz"); r } }
pub fn v65(s: &str) -> String { s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join("-") }
pub fn v66(s: &str) -> String { s.split(':').collect::<Vec<_>>().concat() }
pub fn v67(s: &str) -> String { s.to_lowercase() }
pub fn v68(s: &str) -> Vec<String> { s.split(':').map(|x| x.to_string()).collect() }
pub fn v69(s: &str) -> Vec<String> { s.rsplit(':').map(|x| x.to_string()).collect() }
pub fn v70(s: &str, p: &str) -> Vec<String> { s.split(p).map(String::from).collect() }
pub fn v71(s: &str) -> Vec<char> { s.chars().collect() }
pub fn v72(s: &str) -> Vec<char> { s.chars().rev().collect() }
pub fn v73(s: &str) -> Vec<usize> { s.char_indices().map(|(i, _)| i).collect() }
pub fn v74(s: &str) -> Vec<usize> { s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect() }
pub fn v75(s: &str) -> Option<i64> { s.parse::<i64>().ok() }
pub fn v76(s: &str) -> Option<i64> { s.parse::<i64>().ok().and_then(|x| x.checked_add(1)) }
pub fn v77(s: &str) -> Option<i64> { s.parse::<u32>().ok().map(|x| x as i64) }
pub fn v78(s: &str) -> Option<i64> { s.parse::<u64>().ok().map(|x| (x / 2) as i64) }
pub fn v79(s: &str) -> bool { s.parse::<usize>().is_err() }
pub fn v80(c: char) -> bool { c.is_alphabetic() }
pub fn v81(c: char) -> bool { c.is_alphanumeric() }
pub fn v82(c: char) -> bool { c.is_numeric() }
pub fn v83(c: char) -> bool { c.is_whitespace() }
pub fn v84(c: char) -> bool { c.is_ascii_digit() }
pub fn v85(c: char) -> bool { c.is_ascii() }
pub fn v86(c: char) -> bool { c.is_ascii_alphabetic() }
pub fn v87(c: char) -> bool { c.is_ascii_alphanumeric() }
pub fn v88(c: char) -> bool { c.is_digit(10) }
pub fn v89(c: char) -> bool { c.is_digit(16) }
pub fn v90(c: char) -> bool { c.is_ascii_hexdigit() }
pub fn v91(c: char) -> bool { matches!(c, 'a'..='z' | '_') }
pub fn v92(c: char) -> bool { "a:".contains(c) }
pub fn v93(c: char) -> bool { c < 'b' }
pub fn v94(c: char) -> usize { c.len_utf8() }
pub fn v95(c: char) -> String { c.to_string() }
pub fn v96(c: char) -> u32 { c as u32 }
pub fn v97(a: i64, b: i64) -> Option<i64> { a.checked_add(b) }
pub fn v98(a: i64, b: i64) -> Option<i64> { a.checked_sub(b) }
pub fn v99(a: i64, b: i64) -> Option<i64> { a.checked_mul(b) }
pub fn v100(a: i64, b: i64) -> i64 { a.saturating_add(b) }
pub fn v101(a: i64, b: i64) -> i64 { a.saturating_sub(b) }
pub fn v102(a: i64, b: i64) -> i64 { a.saturating_mul(b) }
pub fn v103(a: u32, b: u32) -> Option<u32> { a.checked_add(b) }
pub fn v104(a: u32, b: u32) -> Option<u32> { a.checked_sub(b) }
pub fn v105(a: u32, b: u32) -> Option<u32> { a.checked_mul(b) }
pub fn v106(a: u32, b: u32) -> u32 { a.saturating_sub(b) }
pub fn v107(a: u32, b: u32) -> u32 { a.saturating_add(b) }
pub fn v108(a: u32, b: u32) -> u32 { a.max(b) }
pub fn v109(a: u32, b: u32) -> u32 { a.min(b) }
pub fn v110(a: u32, b: u32) -> u32 { a.abs_diff(b) }
pub fn v111(a: i64) -> Option<i64> { a.checked_neg() }
pub fn v112(a: i64) -> Option<i64> { a.checked_abs() }
pub fn v113(a: i64) -> u64 { a.unsigned_abs() }
pub fn v114(a: i64) -> u64 { a as u64 }
pub fn v115(a: i64) -> u64 { (a as u64) >> 1 }
pub fn v116(a: i64) -> u32 { a as u32 }
pub fn v117(a: i64) -> u32 { a as u8 as u32 }
pub fn v118(a: i64) -> u32 { a as i32 as u32 }
pub fn v119(a: i64) -> i64 { a.signum() }
pub fn v120(a: i64) -> i64 { a / 2 }
pub fn v121(a: i64) -> i64 { a % 3 }
pub fn v122(a: i64) -> i64 { a.wrapping_add(1) }
pub fn v123(a: i64) -> i64 { a.min(5) }
pub fn v124(a: i64) -> i64 { a.clamp(-1, 7) }
pub fn v125(a: i64) -> bool { a.is_negative() }
pub fn v126(a: i64) -> bool { a.is_positive() }
pub fn v127(a: i64) -> bool { a == 41 }
pub fn v128(a: i64) -> bool { a >= 0 && a < 42 }
pub fn v129(a: i64) -> bool { a < 0 || a > 41 }
pub fn v130(a: i64) -> bool { !(a > 0) }
pub fn v131(a: i64) -> bool { u8::try_from(a).is_ok() }
pub fn v132(a: i64) -> Option<u32> { u32::try_from(a).ok() }
pub fn v133(a: u64) -> Option<i64> { i64::try_from(a).ok() }
pub fn v134(a: u8) -> u8 { a & 15 }
pub fn v135(a: u8) -> u8 { a | 1 }
pub fn v136(a: u8) -> u8 { a ^ 3 }
pub fn v137(a: u8) -> u8 { a >> 2 }
pub fn v138(a: u8) -> u8 { a << 1 }
pub fn v139(a: i64) -> String { format!("{}", a) }
pub fn v140(a: i64) -> String { format!("{:?}", a) }
pub fn v141(a: i64) -> String { format!("[{}]", a) }
pub fn v142(a: u32, b: bool) -> String { format!("{}{}", a, b) }
pub fn v143(a: u32) -> String { format!("{:x}", a) }
pub fn v144(a: u32) -> String { format!("{a:03}") }
pub fn v145(o: Option<i64>) -> Option<i64> { o.map(|x| x + 1) }
pub fn v146(o: Option<i64>) -> Option<i64> { o.filter(|x| *x > 0) }
pub fn v147(o: Option<i64>) -> Option<i64> { o.and_then(|x| if x == 0 { None } else { Some(x * 2) }) }
pub fn v148(o: Option<i64>) -> Option<i64> { o.or(Some(9)) }
pub fn v149(o: Option<i64>) -> Option<i64> { o.or_else(|| Some(8)) }
pub fn v150(o: Option<i64>) -> Option<i64> { o.xor(Some(1)) }
pub fn v151(o: Option<i64>) -> Option<i64> { o.as_ref().map(|x| *x) }
pub fn v152(o: Option<i64>) -> Option<i64> { o.iter().next().copied() }
pub fn v153(o: Option<i64>) -> Option<i64> { { let mut p = o; p.take() } }
pub fn v154(o: Option<i64>) -> Option<i64> { { let mut p = o; p.replace(4) } }
pub fn v155(o: Option<i64>) -> Option<i64> { (|| -> Option<i64> { Some(o?) })() }
pub fn v156(o: Option<i64>) -> Option<i64> { o.zip(Some(1)).map(|(a, b)| a + b) }
pub fn v157(o: Option<i64>) -> Option<i64> { o.into_iter().next() }
pub fn v158(o: Option<i64>) -> i64 { o.unwrap_or(7) }
pub fn v159(o: Option<i64>) -> i64 { o.unwrap_or_default() }
pub fn v160(o: Option<i64>) -> i64 { o.unwrap_or_else(|| -1) }
pub fn v161(o: Option<i64>) -> i64 { o.map_or(5, |x| x - 1) }
pub fn v162(o: Option<i64>) -> i64 { o.map_or_else(|| 6, |x| x + 6) }
pub fn v163(o: Option<i64>) -> i64 { match o { Some(x) if x > 0 => 1, Some(_) => 2, None => 3 } }
pub fn v164(o: Option<i64>) -> i64 { if let Some(x) = o { x } else { 100 } }
pub fn v165(o: Option<i64>) -> i64 { (|| { { let Some(x) = o else { return 1000 }; x } })() }
pub fn v166(o: Option<i64>) -> i64 { o.iter().sum::<i64>() }
pub fn v167(o: Option<i64>) -> bool { o.is_some() }
pub fn v168(o: Option<i64>) -> bool { o.is_none() }
pub fn v169(o: Option<i64>) -> bool { o.is_some_and(|x| x > 0) }
pub fn v170(o: Option<i64>) -> bool { o == Some(3) }
pub fn v171(o: Option<i64>) -> bool { o != None }
pub fn v172(o: Option<i64>) -> bool { o > Some(0) }
pub fn v173(o: Option<i64>) -> bool { o.ok_or(1).is_err() }
pub fn v174(o: Option<i64>) -> bool { o.iter().count() == 0 }
pub fn v175(o: Option<i64>) -> bool { matches!(o, Some(x) if x != 3) }
pub fn v176(r: Result<i64, String>) -> Option<i64> { r.clone().ok() }
pub fn v177(r: Result<i64, String>) -> Option<i64> { r.clone().map(|x| x + 1).ok() }
pub fn v178(r: Result<i64, String>) -> Option<i64> { r.clone().and_then(|x| if x > 0 { Ok(x) } else { Err(String::new()) }).ok() }
pub fn v179(r: Result<i64, String>) -> Option<i64> { r.as_ref().ok().copied() }
pub fn v180(r: Result<i64, String>) -> Option<i64> { (|| Some(r.clone().ok()?))() }
pub fn v181(r: Result<i64, String>) -> i64 { r.clone().unwrap_or(7) }
pub fn v182(r: Result<i64, String>) -> i64 { r.clone().unwrap_or_default() }
pub fn v183(r: Result<i64, String>) -> i64 { r.clone().unwrap_or_else(|e| e.len() as i64) }
pub fn v184(r: Result<i64, String>) -> i64 { match r { Ok(x) => x, Err(e) => -(e.len() as i64) } }
pub fn v185(r: Result<i64, String>) -> bool { r.is_ok() }
pub fn v186(r: Result<i64, String>) -> bool { r.is_err() }
pub fn v187(r: Result<i64, String>) -> bool { r.is_ok_and(|x| x == 3) }
pub fn v188(r: Result<i64, String>) -> bool { r.clone().map_err(|e| e.len()) == Err(3) }
pub fn v189(r: Result<i64, String>) -> Option<String> { r.err() }
pub fn v190(b: bool) -> Option<i64> { b.then(|| 3) }
pub fn v191(b: bool) -> Option<i64> { b.then_some(4) }
pub fn v192(v: Vec<i64>) -> Option<Vec<i64>> { v.iter().map(|x| if *x > 4 { None } else { Some(*x) }).collect::<Option<Vec<_>>>() }
pub fn v193(v: Vec<i64>) -> Result<Vec<i64>, String> { v.iter().map(|x| if *x > 4 { Err(format!("{x}")) } else { Ok(*x) }).collect::<Result<Vec<_>, String>>() }
pub fn v194(v: Vec<i64>) -> usize { v.len() }
pub fn v195(v: Vec<i64>) -> usize { v.iter().count() }
pub fn v196(v: Vec<i64>) -> usize { v.iter().filter(|x| **x > 2).count() }
pub fn v197(v: Vec<i64>) -> usize { v.iter().flat_map(|x| vec![*x; 1]).count() }
pub fn v198(v: Vec<i64>) -> Option<i64> { v.first().copied() }
pub fn v199(v: Vec<i64>) -> Option<i64> { v.last().copied() }
pub fn v200(v: Vec<i64>) -> Option<i64> { v.get(1).copied() }
pub fn v201(v: Vec<i64>) -> Option<i64> { v.iter().next().copied() }
pub fn v202(v: Vec<i64>) -> Option<i64> { v.iter().last().copied() }
pub fn v203(v: Vec<i64>) -> Option<i64> { v.iter().max().copied() }
pub fn v204(v: Vec<i64>) -> Option<i64> { v.iter().min().copied() }
pub fn v205(v: Vec<i64>) -> Option<i64> { v.iter().find(|x| **x > 2).copied() }
pub fn v206(v: Vec<i64>) -> Option<i64> { v.iter().rev().find(|x| **x > 2).copied() }
pub fn v207(v: Vec<i64>) -> Option<i64> { v.iter().find_map(|x| if *x > 2 { Some(x * 10) } else { None }) }
pub fn v208(v: Vec<i64>) -> Option<i64> { v.iter().nth(2).copied() }
pub fn v209(v: Vec<i64>) -> Option<i64> { { let mut w = v.clone(); w.pop() } }
pub fn v210(v: Vec<i64>) -> Option<i64> { v.iter().copied().reduce(|a, b| a + b) }
pub fn v211(v: Vec<i64>) -> Option<i64> { v.iter().skip(1).next().copied() }
pub fn v212(v: Vec<i64>) -> Option<i64> { v.iter().rev().next().copied() }
pub fn v213(v: Vec<i64>) -> Option<i64> { v.iter().min_by_key(|x| (**x - 3).abs()).copied() }
pub fn v214(v: Vec<i64>) -> Option<i64> { v.iter().max_by_key(|x| **x % 3).copied() }
pub fn v215(v: Vec<i64>) -> Option<i64> { v.split_first().map(|(a, _)| *a) }
pub fn v216(v: Vec<i64>) -> Option<i64> { { let mut r = None; for x in &v { if *x > 2 { r = Some(*x); break; } } r } }
pub fn v217(v: Vec<i64>) -> Option<i64> { { let mut r = None; for x in &v { if *x > 2 { r = Some(*x); } } r } }
pub fn v218(v: Vec<i64>) -> Option<usize> { v.iter().position(|x| *x == 2) }
pub fn v219(v: Vec<i64>) -> Option<usize> { v.iter().rposition(|x| *x == 5) }
pub fn v220(v: Vec<i64>) -> Option<usize> { v.iter().enumerate().find(|(_, x)| **x < 3).map(|(i, _)| i) }
pub fn v221(v: Vec<i64>) -> bool { v.is_empty() }
pub fn v222(v: Vec<i64>) -> bool { v.contains(&2) }
pub fn v223(v: Vec<i64>) -> bool { v.iter().any(|x| *x > 4) }
pub fn v224(v: Vec<i64>) -> bool { v.iter().all(|x| *x > 0) }
pub fn v225(v: Vec<i64>) -> bool { v == vec![1, 2, 3] }
pub fn v226(v: Vec<i64>) -> bool { v.iter().eq([3].iter()) }
pub fn v227(v: Vec<i64>) -> bool { v.starts_with(&[1]) }
pub fn v228(v: Vec<i64>) -> bool { v.windows(2).any(|w| w[0] == w[1]) }
pub fn v229(v: Vec<i64>) -> bool { { let mut seen = false; for x in v.iter() { seen |= *x == 2; } seen } }
pub fn v230(v: Vec<i64>) -> Vec<i64> { v.iter().map(|x| x * 2).collect() }
pub fn v231(v: Vec<i64>) -> Vec<i64> { v.iter().filter(|x| **x > 2).copied().collect() }
pub fn v232(v: Vec<i64>) -> Vec<i64> { v.iter().rev().copied().collect() }
pub fn v233(v: Vec<i64>) -> Vec<i64> { v.iter().skip(1).copied().collect() }
pub fn v234(v: Vec<i64>) -> Vec<i64> { v.iter().take(2).copied().collect() }
pub fn v235(v: Vec<i64>) -> Vec<i64> { v.iter().enumerate().map(|(i, x)| i as i64 + x).collect() }
pub fn v236(v: Vec<i64>) -> Vec<i64> { v.iter().filter_map(|x| if x % 2 == 0 { Some(x / 2) } else { None }).collect() }
pub fn v237(v: Vec<i64>) -> Vec<i64> { v.iter().flat_map(|x| vec![*x, -*x]).collect() }
pub fn v238(v: Vec<i64>) -> Vec<i64> { v.iter().chain([7].iter()).copied().collect() }
pub fn v239(v: Vec<i64>) -> Vec<i64> { v.iter().copied().chain(std::iter::once(4)).collect() }
pub fn v240(v: Vec<i64>) -> Vec<i64> { v.iter().zip(v.iter().skip(1)).map(|(a, b)| b - a).collect() }
pub fn v241(v: Vec<i64>) -> Vec<i64> { v.windows(2).map(|w| w[0] + w[1]).collect() }
pub fn v242(v: Vec<i64>) -> Vec<i64> { v.iter().take_while(|x| **x < 4).copied().collect() }
pub fn v243(v: Vec<i64>) -> Vec<i64> { v.iter().skip_while(|x| **x < 3).copied().collect() }
pub fn v244(v: Vec<i64>) -> Vec<i64> { v.iter().step_by(2).copied().collect() }
pub fn v245(v: Vec<i64>) -> Vec<i64> { v.iter().scan(0, |s, x| { *s += x; Some(*s) }).collect() }
pub fn v246(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); w.push(9); w } }
pub fn v247(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); w.insert(0, 9); w } }
pub fn v248(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); w.extend(vec![1, 2]); w } }
pub fn v249(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); w.extend_from_slice(&[8]); w } }
pub fn v250(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); w.reverse(); w } }
pub fn v251(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); w.sort(); w } }
pub fn v252(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); w.dedup(); w } }
pub fn v253(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); w.retain(|x| *x > 1); w } }
pub fn v254(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); w.truncate(2); w } }
pub fn v255(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); w.clear(); w } }
pub fn v256(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); let mut z = vec![1]; w.append(&mut z); w } }
pub fn v257(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); let p = w.pop(); w.push(p.unwrap_or(77)); w } }
pub fn v258(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); let d: Vec<i64> = w.drain(..).collect(); d } }
pub fn v259(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); for x in w.iter_mut() { *x += 1; } w } }
pub fn v260(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); if let Some(x) = w.first_mut() { *x = 50; } w } }
pub fn v261(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); if let Some(x) = w.last_mut() { *x += 50; } w } }
pub fn v262(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); if w.len() > 1 { w[1] = 60; } w } }
pub fn v263(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); if w.len() > 1 { w.swap(0, 1); } w } }
pub fn v264(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); if w.len() > 1 { w.remove(0); } w } }
pub fn v265(v: Vec<i64>) -> Vec<i64> { { let mut w = Vec::new(); for x in &v { if *x == 3 { continue; } w.push(x + 1); } w } }
pub fn v266(v: Vec<i64>) -> Vec<i64> { { let mut w = Vec::new(); for x in &v { if *x > 3 { break; } w.push(*x); } w } }
pub fn v267(v: Vec<i64>) -> Vec<i64> { { let mut w = Vec::new(); for (i, x) in v.iter().enumerate() { for y in &v[..i] { w.push(x * y); } } w } }
pub fn v268(v: Vec<i64>) -> Vec<i64> { { let mut w = Vec::new(); let mut p = 0; for x in &v { w.push(x - p); p = *x; } w } }
pub fn v269(v: Vec<i64>) -> Vec<i64> { { let mut w = Vec::new(); let mut p = None; for x in &v { if let Some(q) = p { w.push(x - q); } p = Some(*x); } w } }
pub fn v270(v: Vec<i64>) -> Vec<i64> { { let mut w = vec![]; let mut i = 0; while i < v.len() { w.push(v[i]); i += 2; } w } }
pub fn v271(v: Vec<i64>) -> Vec<i64> { v.iter().fold(vec![], |mut a, x| { a.push(x + 1); a }) }
pub fn v272(v: Vec<i64>) -> Vec<i64> { v.clone().into_iter().map(|x| x - 1).collect() }
pub fn v273(v: Vec<i64>) -> Vec<i64> { v.to_vec() }
pub fn v274(v: Vec<i64>) -> Vec<i64> { v.iter().cloned().inspect(|_| ()).collect() }
pub fn v275(v: Vec<i64>) -> Vec<i64> { v.iter().flat_map(|x| if *x > 2 { Some(*x) } else { None }).collect() }
pub fn v276(v: Vec<i64>) -> Vec<i64> { vec![v.clone(), v.clone()].concat() }
pub fn v277(v: Vec<i64>) -> Vec<i64> { v.iter().map(|x| Some(*x).filter(|y| *y > 2)).flatten().collect() }
pub fn v278(v: Vec<i64>) -> Vec<i64> { v.iter().peekable().copied().collect() }
pub fn v279(v: Vec<i64>) -> Vec<i64> { { let (a, b): (Vec<i64>, Vec<i64>) = v.iter().partition(|x| **x > 2); a.into_iter().chain(b).collect() } }
pub fn v280(v: Vec<i64>) -> Vec<i64> { v.iter().copied().filter(|x| x % 2 == 1).map(|x| x * x).rev().collect() }
pub fn v281(v: Vec<i64>) -> Vec<i64> { v.chunks(2).map(|c| c.len() as i64).collect() }
pub fn v282(v: Vec<i64>) -> i64 { v.iter().sum() }
pub fn v283(v: Vec<i64>) -> i64 { v.iter().fold(0, |a, x| a * 2 + x) }
pub fn v284(v: Vec<i64>) -> i64 { v.iter().product() }
pub fn v285(v: Vec<i64>) -> i64 { { let mut s = 0; for x in &v { s += x; } s } }
pub fn v286(v: Vec<i64>) -> i64 { { let mut s = 0; for (i, x) in v.iter().enumerate() { s += x * i as i64; } s } }
pub fn v287(v: Vec<i64>) -> i64 { { let mut s = 0; v.iter().for_each(|x| s += x); s } }
pub fn v288(v: Vec<i64>) -> i64 { v.iter().map(|x| x.abs()).max().unwrap_or(0) }
pub fn v289(v: Vec<i64>) -> i64 { { let mut n = 0; for x in v.iter().rev() { n += 1; if *x == 5 { break; } } n } }
pub fn v290(v: Vec<i64>) -> i64 { { let mut n = 0; for a in &v { for b in &v { if a < b { n += 1; } } } n } }
pub fn v291(v: Vec<i64>) -> i64 { { let mut n = 0; 'o: for a in &v { for b in &v { if a + b == 4 { n = *a; break 'o; } } } n } }
pub fn v292(v: Vec<i64>, n: usize) -> Option<i64> { v.get(n).copied() }
pub fn v293(v: Vec<i64>, n: usize) -> Option<i64> { v.iter().skip(n).next().copied() }
pub fn v294(v: Vec<i64>, n: usize) -> Option<i64> { v.iter().take(n).last().copied() }
pub fn v295(v: Vec<i64>, n: usize) -> Option<i64> { if n < v.len() { Some(v[n]) } else { None } }
pub fn v296(v: Vec<i64>, n: usize) -> Option<i64> { v[..n.min(v.len())].last().copied() }
pub fn v297(v: Vec<i64>, n: usize) -> Option<i64> { v.iter().nth(n).copied() }
pub fn v298(v: Vec<i64>, n: usize) -> Vec<i64> { v.iter().skip(n).copied().collect() }
pub fn v299(v: Vec<i64>, n: usize) -> Vec<i64> { v.iter().take(n).copied().collect() }
pub fn v300(v: Vec<i64>, n: usize) -> Vec<i64> { v.iter().rev().take(n).copied().collect() }
pub fn v301(v: Vec<i64>, n: usize) -> Vec<i64> { (0..n as i64).collect() }
pub fn v302(v: Vec<i64>, n: usize) -> Vec<i64> { (0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect() }
pub fn v303(v: Vec<i64>, n: usize) -> Vec<i64> { (0..=n as i64).rev().collect() }
pub fn v304(v: Vec<i64>, n: usize) -> Vec<i64> { { let mut w = v.clone(); w.insert(n.min(w.len()), 1); w } }
pub fn v305(v: Vec<i64>, n: usize) -> Vec<i64> { { let mut w = v.clone(); w.truncate(n); w } }
pub fn v306(v: Vec<i64>, n: usize) -> Vec<i64> { v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect() }
pub fn v307(v: Vec<String>) -> String { v.join(",") }
pub fn v308(v: Vec<String>) -> String { v.concat() }
pub fn v309(v: Vec<String>) -> String { v.iter().map(|s| format!("<{s}>")).collect::<Vec<_>>().join("; ") }
pub fn v310(v: Vec<String>) -> String { v.iter().map(|s| s.as_str()).collect::<String>() }
pub fn v311(v: Vec<String>) -> String { v.iter().fold(String::new(), |a, s| a + s) }
pub fn v312(v: Vec<String>) -> String { format!("{:?}", v) }
pub fn v313(v: Vec<String>) -> String { { let mut r = String::new(); for s in &v { if !r.is_empty() { r.push(','); } r.push_str(s); } r } }
pub fn v314(v: Vec<String>) -> bool { v.contains(&"a".to_string()) }
pub fn v315(v: Vec<String>) -> bool { v.iter().any(|s| s == "a") }
pub fn v316(v: Vec<String>) -> bool { v.iter().all(|s| s.len() < 2) }
pub fn v317(v: Vec<String>) -> bool { v.iter().any(|s| s.is_empty()) }
pub fn v318(v: Vec<String>) -> String { v.iter().enumerate().map(|(i, x)| if i > 0 { format!(",{x}") } else { x.clone() }).collect::<String>() }
pub fn v319(v: Vec<String>) -> String { v.iter().enumerate().map(|(i, x)| if i > 1 { format!(",{x}") } else { x.clone() }).collect::<String>() }
pub fn v320(v: Vec<String>) -> String { { let mut r = String::new(); for (i, x) in v.iter().enumerate() { if i != 0 { r.push(','); } r.push_str(x); } r } }
pub fn v321(v: Vec<String>) -> String { { let mut r = String::new(); for (i, x) in v.iter().enumerate() { r.push_str(x); if i + 1 < v.len() { r.push(','); } } r } }
pub fn v322(v: Vec<String>) -> String { { let mut r = String::new(); for (i, x) in v.iter().enumerate() { r.push_str(x); if i < v.len() { r.push(','); } } r } }
pub fn v323(v: Vec<String>) -> String { { let mut r = String::new(); for i in 0..v.len() { if i >= 1 { r += ","; } r += &v[i]; } r } }
pub fn v324(v: Vec<String>) -> String { { let mut r = String::new(); let mut i = 0; while i < v.len() { if i > 0 { r.push(','); } r.push_str(&v[i]); i += 1; } r } }
pub fn v325(v: Vec<String>) -> String { v.iter().rev().cloned().collect::<Vec<_>>().join(",") }
pub fn v326(v: Vec<String>) -> String { v.iter().skip(1).cloned().collect::<Vec<_>>().join(",") }
pub fn v327(v: Vec<String>) -> String { v.iter().filter(|x| !x.is_empty()).cloned().collect::<Vec<_>>().join(",") }
pub fn v328(v: Vec<String>) -> String { format!("{0}{1}{0}", v.len(), v.concat()) }
pub fn v329(v: Vec<String>) -> String { format!("{1}{0}", v.len(), v.concat()) }
pub fn v330(v: Vec<String>) -> String { format!("{0}{1}", v.len(), v.concat()) }
pub fn v331(v: Vec<String>) -> String { format!("{}{}", v.len(), v.concat()) }
pub fn v332(s: &str) -> usize { s.split([':', '%']).count() }
pub fn v333(s: &str) -> usize { s.split(&[':', '%'][..]).count() }
pub fn v334(s: &str) -> usize { s.split(|c| c == ':' || c == '%').count() }
pub fn v335(s: &str) -> usize { s.matches(':').count() }
pub fn v336(s: &str) -> usize { s.rsplit(':').count() }
pub fn v337(s: &str) -> usize { s.split([':']).count() }
pub fn v338(s: &str) -> bool { s.starts_with([':', '%']) }
pub fn v339(s: &str) -> bool { s.starts_with(|c| c == ':' || c == '%') }
pub fn v340(s: &str) -> bool { s.starts_with(':') || s.starts_with('%') }
pub fn v341(s: &str) -> bool { s.contains([':', '%']) }
pub fn v342(s: &str) -> bool { s.contains(|c: char| c == ':') }
pub fn v343(s: &str) -> bool { s.contains(":") }
pub fn v344(s: &str) -> bool { s.split(':').count() > 1 }
pub fn v345(s: &str) -> bool { s.split_once(':').is_some() }
pub fn v346(s: &str) -> bool { s.rsplit_once(':').is_some() }
pub fn v347(s: &str) -> bool { s.find(':').is_some() }
pub fn v348(s: &str) -> bool { s.rfind(':').is_none() }
pub fn v349(s: &str) -> bool { s.chars().any(|c| c == ':' || c == '%') }
pub fn v350(s: &str) -> bool { s.ends_with([':', 'c']) }
pub fn v351<'a>(s: &'a str) -> Option<&'a str> { s.rsplit(':').nth(1) }
pub fn v352<'a>(s: &'a str) -> Option<&'a str> { s.rsplit([':', '%']).next() }
pub fn v353<'a>(s: &'a str) -> Option<&'a str> { s.split([':', '%']).last() }
pub fn v354<'a>(s: &'a str) -> Option<&'a str> { s.rsplit_once(':').map(|x| x.1) }
pub fn v355<'a>(s: &'a str) -> Option<&'a str> { s.split_once(':').map(|x| x.0) }
pub fn v356<'a>(s: &'a str) -> Option<&'a str> { s.split_once(':').map(|x| x.1) }
pub fn v357<'a>(s: &'a str) -> Option<&'a str> { s.rsplit_once(':').map(|x| x.0) }
pub fn v358<'a>(s: &'a str) -> Option<&'a str> { s.rfind(':').map(|i| &s[i + 1..]) }
pub fn v359<'a>(s: &'a str) -> Option<&'a str> { s.find(':').map(|i| &s[..i]) }
pub fn v360<'a>(s: &'a str) -> Option<&'a str> { s.rfind([':', '%']).map(|i| &s[i + 1..]) }
pub fn v361<'a>(s: &'a str) -> Option<&'a str> { s.splitn(2, ':').nth(1) }
pub fn v362<'a>(s: &'a str) -> Option<&'a str> { s.rsplitn(2, ':').next() }
pub fn v363<'a>(s: &'a str) -> Option<&'a str> { s.split(':').next_back() }
pub fn v364<'a>(s: &'a str) -> Option<&'a str> { s.rfind(':').map(|i| &s[i..]) }
pub fn v365(v: Vec<i64>) -> Vec<i64> { { let mut o = vec![]; for i in 1..v.len() { o.push(v[i]); } o } }
pub fn v366(v: Vec<i64>) -> Vec<i64> { v[1.min(v.len())..].to_vec() }
pub fn v367(v: Vec<i64>) -> Vec<i64> { { let mut o = vec![]; let mut i = 1; while i < v.len() { o.push(v[i]); i += 1; } o } }
pub fn v368(v: Vec<i64>) -> Vec<i64> { v.iter().skip(1).copied().collect() }
pub fn v369(v: Vec<i64>) -> Vec<i64> { { let mut o = vec![]; for i in 0..v.len() { if i > 0 { o.push(v[i]); } } o } }
pub fn v370(v: Vec<i64>) -> Vec<i64> { match v.as_slice() { [] => vec![], [_, r @ ..] => r.to_vec() } }
pub fn v371(v: Vec<i64>) -> Vec<i64> { match v.as_slice() { [a, .., b] => vec![*a, *b], r => r.to_vec() } }
pub fn v372(v: Vec<i64>) -> Vec<i64> { { let mut o = vec![]; if let (Some(a), Some(b)) = (v.first(), v.last()) { if v.len() > 1 { o.push(*a); o.push(*b); } else { o.push(*a); } } o } }
pub fn v373(v: Vec<i64>) -> Vec<i64> { { let mut o = vec![]; for i in 0..v.len() { o.push(v[v.len() - 1 - i]); } o } }
pub fn v374(v: Vec<i64>) -> Vec<i64> { { let mut o = vec![]; for i in 1..v.len() { o.push(v[i - 1]); } o } }
pub fn v375(v: Vec<i64>) -> Vec<i64> { { let mut o = vec![]; for w in v.windows(2) { o.push(w[0]); } o } }
pub fn v376(v: Vec<i64>) -> Vec<i64> { v.split_first().map(|x| x.1.to_vec()).unwrap_or_default() }
pub fn v377(v: Vec<i64>) -> Vec<i64> { v.split_last().map(|x| x.1.to_vec()).unwrap_or_default() }
pub fn v378(v: Vec<i64>) -> Vec<i64> { { let mut o = vec![]; for (i, x) in v.iter().enumerate() { if i + 1 < v.len() { o.push(*x); } } o } }
pub fn v379(v: Vec<i64>) -> Vec<i64> { v.iter().zip(v.iter().skip(1)).map(|(a, _)| *a).collect() }
pub fn v380(v: Vec<i64>) -> Vec<i64> { { let mut o = vec![]; for x in &v { if *x > 1 { if *x < 5 { o.push(*x); } } } o } }
pub fn v381(v: Vec<i64>) -> Vec<i64> { v.iter().filter(|x| **x > 1 && **x < 5).copied().collect() }
pub fn v382(v: Vec<i64>) -> Vec<i64> { v.iter().filter(|x| **x > 1 || **x < 5).copied().collect() }
pub fn v383(v: Vec<i64>) -> Vec<i64> { v.iter().filter(|x| **x > 1).filter(|x| **x < 5).copied().collect() }
pub fn v384(v: Vec<i64>) -> Vec<i64> { { let mut o = vec![]; for x in &v { if *x <= 1 { continue; } if *x >= 5 { continue; } o.push(*x); } o } }
pub fn v385(v: Vec<i64>) -> Vec<i64> { { let mut o = vec![]; for x in &v { if *x <= 1 { break; } o.push(*x); } o } }
pub fn v386(v: Vec<i64>) -> Vec<i64> { { let mut w = v.clone(); w.retain(|x| *x > 1 && *x < 5); w } }
pub fn v387(v: Vec<i64>) -> usize { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.len() } }
pub fn v388(v: Vec<i64>) -> Option<i64> { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.get(&5).copied() } }
pub fn v389(v: Vec<i64>) -> Option<i64> { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.get(&5).copied() } }
pub fn v390(v: Vec<i64>) -> bool { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.contains_key(&2) } }
pub fn v391(v: Vec<i64>) -> bool { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.contains_key(&2) } }
pub fn v392(v: Vec<i64>) -> bool { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.is_empty() } }
pub fn v393(v: Vec<i64>) -> bool { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.is_empty() } }
pub fn v394(v: Vec<i64>) -> bool { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.get(&1).is_some() } }
pub fn v395(v: Vec<i64>) -> bool { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.get(&1).is_some() } }
pub fn v396(v: Vec<i64>) -> i64 { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { m.insert(*x, 1); } m.get(&0).copied().unwrap_or(3) } }
pub fn v397(v: Vec<i64>) -> i64 { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, 1); } m.get(&0).copied().unwrap_or(3) } }
pub fn v398(v: Vec<i64>) -> usize { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.len() } }
pub fn v399(v: Vec<i64>) -> Option<i64> { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&5).copied() } }
pub fn v400(v: Vec<i64>) -> Option<i64> { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&5).copied() } }
pub fn v401(v: Vec<i64>) -> bool { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.contains_key(&2) } }
pub fn v402(v: Vec<i64>) -> bool { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.contains_key(&2) } }
pub fn v403(v: Vec<i64>) -> bool { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.is_empty() } }
pub fn v404(v: Vec<i64>) -> bool { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.is_empty() } }
pub fn v405(v: Vec<i64>) -> bool { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&1).is_some() } }
pub fn v406(v: Vec<i64>) -> bool { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&1).is_some() } }
pub fn v407(v: Vec<i64>) -> i64 { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&0).copied().unwrap_or(3) } }
pub fn v408(v: Vec<i64>) -> i64 { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(*x).or_insert(0) += 1; } m.get(&0).copied().unwrap_or(3) } }
pub fn v409(v: Vec<i64>) -> usize { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.len() } }
pub fn v410(v: Vec<i64>) -> Option<i64> { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&5).copied() } }
pub fn v411(v: Vec<i64>) -> Option<i64> { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&5).copied() } }
pub fn v412(v: Vec<i64>) -> bool { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.contains_key(&2) } }
pub fn v413(v: Vec<i64>) -> bool { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.contains_key(&2) } }
pub fn v414(v: Vec<i64>) -> bool { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.is_empty() } }
pub fn v415(v: Vec<i64>) -> bool { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.is_empty() } }
pub fn v416(v: Vec<i64>) -> bool { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&1).is_some() } }
pub fn v417(v: Vec<i64>) -> bool { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&1).is_some() } }
pub fn v418(v: Vec<i64>) -> i64 { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&0).copied().unwrap_or(3) } }
pub fn v419(v: Vec<i64>) -> i64 { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { *m.entry(x % 2).or_default() += x; } m.get(&0).copied().unwrap_or(3) } }
pub fn v420(v: Vec<i64>) -> usize { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.len() } }
pub fn v421(v: Vec<i64>) -> Option<i64> { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&5).copied() } }
pub fn v422(v: Vec<i64>) -> Option<i64> { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&5).copied() } }
pub fn v423(v: Vec<i64>) -> bool { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.contains_key(&2) } }
pub fn v424(v: Vec<i64>) -> bool { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.contains_key(&2) } }
pub fn v425(v: Vec<i64>) -> bool { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.is_empty() } }
pub fn v426(v: Vec<i64>) -> bool { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.is_empty() } }
pub fn v427(v: Vec<i64>) -> bool { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&1).is_some() } }
pub fn v428(v: Vec<i64>) -> bool { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&1).is_some() } }
pub fn v429(v: Vec<i64>) -> i64 { { let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&0).copied().unwrap_or(3) } }
pub fn v430(v: Vec<i64>) -> i64 { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); } } m.get(&0).copied().unwrap_or(3) } }
pub fn v431(v: Vec<i64>) -> Option<i64> { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.iter().next().map(|(k, _)| *k) } }
pub fn v432(v: Vec<i64>) -> Vec<i64> { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.keys().copied().collect() } }
pub fn v433(v: Vec<i64>) -> Vec<i64> { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.values().copied().collect() } }
pub fn v434(v: Vec<i64>) -> Vec<i64> { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.iter().map(|(k, x)| k * x).collect() } }
pub fn v435(v: Vec<i64>) -> Option<i64> { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.range(2..).next().map(|(k, _)| *k) } }
pub fn v436(v: Vec<i64>) -> Option<i64> { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.iter().find(|(k, _)| **k > 2).map(|(_, x)| *x) } }
pub fn v437(v: Vec<i64>) -> usize { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } { m.remove(&5); m.len() } } }
pub fn v438(v: Vec<i64>) -> Option<i64> { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.insert(5, 3) } }
pub fn v439(v: Vec<i64>) -> Option<i64> { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } { if let Some(x) = m.get_mut(&5) { *x = 11; } m.get(&5).copied() } } }
pub fn v440(v: Vec<i64>) -> Vec<i64> { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.into_iter().map(|(k, _)| k).collect() } }
pub fn v441(v: Vec<i64>) -> Option<i64> { { let mut m: BTreeMap<i64, i64> = BTreeMap::new(); for x in &v { m.insert(*x, x + 1); } m.last_key_value().map(|(k, _)| *k) } }
pub fn v442(a: usize, b: usize, n: usize) -> bool { (a..b).contains(&n) }
pub fn v443(a: usize, b: usize, n: usize) -> bool { (a..b).is_empty() }
pub fn v444(a: usize, b: usize, n: usize) -> bool { (a..=b).contains(&n) }
pub fn v445(a: usize, b: usize, n: usize) -> bool { (a..b) == (n..b) }
pub fn v446(a: usize, b: usize, n: usize) -> bool { n >= a && n < b }
pub fn v447(a: usize, b: usize, n: usize) -> bool { (a, b) < (b, n) }
pub fn v448(a: usize, b: usize) -> usize { (a..b).len() }
pub fn v449(a: usize, b: usize) -> usize { b.saturating_sub(a) }
pub fn v450(a: usize, b: usize) -> usize { std::cmp::max(a, b) - std::cmp::min(a, b) }
pub fn v451(a: usize, b: usize) -> (usize, usize) { { let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p } }
pub fn v452(a: usize, b: usize) -> (usize, usize) { { let mut p = (a, b); { let q = &mut p.1; *q += 3; } p } }
pub fn v453(a: usize, b: usize) -> (usize, usize) { { let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) } }
pub fn v454(v: Vec<i64>) -> (i64, Vec<i64>) { { let mut w = v; let old = std::mem::take(&mut w); w.push(1); (old.len() as i64, w) } }
pub fn v455(a: i64) -> i64 { { let mut p = P { x: a, y: 2 }; bump(&mut p); p.x = p.x / 2; p.y + p.x } }
pub fn v456(a: i64) -> i64 { { let p = P { x: a, y: 2 }; let q = P { y: 9, ..p.clone() }; q.x * 100 + q.y + p.y } }
pub fn v457(n: usize) -> i64 { area(&match n { 0 => Sh::Unit, 1 => Sh::Sq(4), 2 => Sh::Rect { w: 2, h: 5 }, _ => Sh::Sq(n as i64) }) }
pub fn v458(a: i64) -> bool { P { x: 1, y: a } == P { x: 1, y: 8 } }
pub fn v459(n: usize) -> bool { (if n == 0 { Sh::Unit } else { Sh::Sq(n as i64) }) == Sh::Sq(2) }
pub fn v460(a: i64) -> i64 { { let f = |x: i64| x * a; f(2) + f(3) } }
pub fn v461(a: i64) -> i64 { { let mut c = 0; let mut f = |x: i64| c += x; f(a); f(2); c } }
pub fn v462(v: Vec<i64>) -> i64 { pick(v.as_slice()).unwrap_or(-100) }
pub fn v463(a: i64) -> i64 { { let b: Box<dyn Fn(i64) -> i64> = Box::new(move |x| x + a); b(1) } }
pub fn v464(s: &str) -> usize { { let r = ropey::Rope::from_str(s); r.len_chars() } }
pub fn v465(s: &str) -> usize { { let r = ropey::Rope::from_str(s); r.len_lines() } }
pub fn v466(s: &str) -> usize { { let r = ropey::Rope::from_str(s); r.len_utf16_cu() } }
pub fn v467(s: &str) -> usize { { let r = ropey::Rope::from_str(s); r.len_bytes() } }
pub fn v468(s: &str, n: usize) -> Option<usize> { { let r = ropey::Rope::from_str(s); r.try_line_to_char(n).ok() } }
pub fn v469(s: &str, n: usize) -> Option<usize> { { let r = ropey::Rope::from_str(s); r.try_char_to_line(n).ok() } }
pub fn v470(s: &str, n: usize) -> Option<usize> { { let r = ropey::Rope::from_str(s); r.try_char_to_utf16_cu(n).ok() } }
pub fn v471(s: &str, n: usize) -> Option<usize> { { let r = ropey::Rope::from_str(s); r.try_utf16_cu_to_char(n).ok() } }
pub fn v472(s: &str, n: usize) -> Option<usize> { { let r = ropey::Rope::from_str(s); r.try_char_to_byte(n).ok() } }
pub fn v473(s: &str, n: usize) -> Option<usize> { { let r = ropey::Rope::from_str(s); r.try_byte_to_char(n).ok() } }
pub fn v474(s: &str) -> bool { serde_json::from_str::<serde_json::Value>(s).is_ok() }
pub fn v475(s: &str) -> bool { serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").is_some()) }
pub fn v476(s: &str) -> bool { serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get("backtrace").and_then(|b| b.as_array().map(|x| x.len())) == Some(1)) }
pub fn v477(s: &str) -> bool { serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some()) }
pub fn v478(s: &str) -> bool { serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some("s")) }
pub fn v479(v: Vec<i64>) -> i64 { { let mut i = v.iter(); let a = i.any(|x| *x == 2) as i64; a * 100 + i.next().copied().unwrap_or(-7) } }
pub fn v480(v: Vec<i64>) -> i64 { { let mut i = v.iter(); let a = i.find(|x| **x > 1).copied().unwrap_or(0); a * 100 + i.count() as i64 } }
pub fn v481(v: Vec<i64>) -> i64 { { let mut i = v.iter(); let a = i.nth(1).copied().unwrap_or(0); a * 100 + i.next().copied().unwrap_or(-7) } }
pub fn v482(v: Vec<i64>) -> i64 { { let mut i = v.iter(); let a = i.position(|x| *x == 5).unwrap_or(9); a as i64 * 100 + i.len() as i64 } }
pub fn v483(v: Vec<i64>) -> i64 { { let mut i = v.iter(); i.next(); i.all(|x| *x < 3); i.next().copied().unwrap_or(-7) } }
pub fn v484(v: Vec<i64>) -> i64 { v.iter().fold(0, |a, x| a + x) }
pub fn v485(v: Vec<i64>) -> i64 { v.iter().fold(1, |a, x| if *x > 2 { a + x } else { a }) }
pub fn v486(v: Vec<i64>) -> i64 { v.iter().rev().fold(0, |a, x| a * 10 + x) }
pub fn v487(v: Vec<i64>) -> i64 { v.iter().filter(|x| **x > 1).fold(0, |a, _| a + 1) }
pub fn v488(v: Vec<i64>) -> i64 { match v.split_first() { Some((a, r)) => a * 10 + r.len() as i64, None => -1 } }
pub fn v489(v: Vec<i64>) -> i64 { match v.split_last() { Some((a, r)) => a * 10 + r.len() as i64, None => -1 } }
pub fn v490(v: Vec<i64>) -> i64 { v.iter().map(|x| x * 2).nth(2).unwrap_or(-3) }
pub fn v491(v: Vec<i64>) -> i64 { v.iter().enumerate().fold(0, |a, (i, x)| a + i as i64 * x) }
pub fn v492(v: Vec<i64>) -> Vec<i64> { v.iter().fold(Vec::new(), |mut a, x| { a.push(*x); a }) }
pub fn v493(v: Vec<i64>) -> Vec<i64> { v.iter().fold(vec![], |mut a: Vec<i64>, x| { if a.last() != Some(x) { a.push(*x); } a }) }
pub fn v494(v: Vec<i64>) -> Vec<i64> { v[..v.len() / 2].to_vec() }
pub fn v495(v: Vec<i64>) -> Vec<i64> { v[v.len() / 2..].to_vec() }
pub fn v496(v: Vec<i64>) -> Vec<i64> { v[..].to_vec() }
pub fn v497(v: Vec<i64>) -> Vec<i64> { v[v.len().min(1)..v.len()].to_vec() }
pub fn v498(v: Vec<i64>) -> Vec<i64> { v.get(1..).map(|x| x.to_vec()).unwrap_or_default() }
pub fn v499(v: Vec<i64>) -> Vec<i64> { v.split_first().map(|(_, r)| r.to_vec()).unwrap_or_default() }
pub fn v500(v: Vec<i64>) -> Vec<i64> { v.split_last().map(|(_, r)| r.to_vec()).unwrap_or_default() }
pub fn v501(s: &str) -> usize { s.as_bytes().len() }
pub fn v502(s: &str) -> usize { s.as_bytes().iter().filter(|b| **b == b':').count() }
pub fn v503(s: &str) -> usize { s.bytes().filter(|b| *b < 128).count() }
pub fn v504(s: &str) -> usize { s.get(1..2).map(|x| x.len()).unwrap_or(9) }
pub fn v505(s: &str) -> usize { s.get(..2).map(|x| x.len()).unwrap_or(9) }
pub fn v506(s: &str) -> usize { s.get(3..).map(|x| x.len()).unwrap_or(9) }
pub fn v507(s: &str) -> bool { s.as_bytes().first() == Some(&b'a') }
pub fn v508(s: &str) -> bool { s.starts_with('\u{e9}') }
pub fn v509(s: &str) -> bool { s.chars().next() == Some(':') }
pub fn v510(s: &str) -> bool { s.chars().next().map_or(false, |c| c.is_ascii_punctuation()) }
pub fn v511(s: &str) -> bool { s.get(0..1) == Some("a") }
pub fn v512(s: &str) -> bool { s.is_char_boundary(1) }
pub fn v513(s: &str) -> bool { s.bytes().next() == Some(b'%') }
pub fn v514(s: &str) -> bool { s.chars().all(|c| c.is_ascii_graphic()) }
pub fn v515(s: &str) -> String { { use std::fmt::Write; let mut r = String::new(); write!(r, "<{}>", s).unwrap(); writeln!(r, "{}", s.len()).unwrap(); r } }
pub fn v516(s: &str) -> String { { let mut r = String::from("-"); r.extend(s.chars()); r.extend(s.split(':')); r } }
pub fn v517(s: &str) -> String { { let mut r = String::new(); r.extend(s.split(':').map(|x| format!("{x};"))); r } }
pub fn v518(s: &str) -> String { s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r }) }
pub fn v519(s: &str) -> String { s.split(':').fold(String::new(), |r, x| r + x + "|") }
pub fn v520(r: Result<i64, String>) -> i64 { r.clone().map_or(7, |x| x + 1) }
pub fn v521(r: Result<i64, String>) -> i64 { r.clone().or_else(|e| if e.len() == 3 { Ok::<i64, String>(5) } else { Err(e) }).unwrap_or(0) }
pub fn v522(r: Result<i64, String>) -> i64 { r.iter().map(|x| x + 1).next().unwrap_or(-1) }
pub fn v523(r: Result<i64, String>) -> i64 { r.clone().into_iter().count() as i64 }
pub fn v524(o: Option<i64>) -> Option<i64> { o.and(Some(5)) }
pub fn v525(o: Option<i64>) -> Option<i64> { o.xor(Some(5)) }
pub fn v526(o: Option<i64>) -> Option<i64> { o.xor(None) }
pub fn v527(o: Option<i64>) -> Option<i64> { o.and(None::<i64>) }
pub fn v528(c: char) -> bool { c.is_ascii_punctuation() }
pub fn v529(c: char) -> bool { c.is_ascii_whitespace() }
pub fn v530(c: char) -> bool { c.is_ascii_hexdigit() }
pub fn v531(c: char) -> bool { c.is_ascii_control() }
pub fn v532(c: char) -> bool { c.is_ascii_graphic() }
pub fn v533(c: char) -> bool { c.is_digit(2) }
pub fn v534(b: u8) -> bool { b.is_ascii_digit() }
pub fn v535(b: u8) -> bool { b.is_ascii() }
pub fn v536(b: u8) -> bool { b.is_ascii_uppercase() }
pub fn v537(b: u8) -> bool { b.is_ascii_whitespace() }
#[test]
fn all() {
    assert!(c0_0(), "c0_0");
    assert!(s0_0(""), "s0_0");
    assert!(c0_1(), "c0_1");
    assert!(s0_1("a"), "s0_1");
    assert!(c0_2(), "c0_2");
    assert!(s0_2("abc"), "s0_2");
    assert!(c0_3(), "c0_3");
    assert!(s0_3("%a1"), "s0_3");
    assert!(c0_4(), "c0_4");
    assert!(s0_4("\u{e9}%x"), "s0_4");
    assert!(c0_5(), "c0_5");
    assert!(s0_5("a:b:c"), "s0_5");
    assert!(c0_6(), "c0_6");
    assert!(s0_6("::"), "s0_6");
    assert!(c0_7(), "c0_7");
    assert!(s0_7("  x "), "s0_7");
    assert!(c0_8(), "c0_8");
    assert!(s0_8("12"), "s0_8");
    assert!(c0_9(), "c0_9");
    assert!(s0_9("-5"), "s0_9");
    assert!(c0_10(), "c0_10");
    assert!(s0_10("+7"), "s0_10");
    assert!(c0_11(), "c0_11");
    assert!(s0_11("99999999999999999999"), "s0_11");
    assert!(c0_12(), "c0_12");
    assert!(s0_12("a\u{a}b\u{d}\u{a}c"), "s0_12");
    assert!(c0_13(), "c0_13");
    assert!(s0_13("\u{65e5}\u{672c}"), "s0_13");
    assert!(c0_14(), "c0_14");
    assert!(s0_14("\u{1f600}z"), "s0_14");
    assert!(c0_15(), "c0_15");
    assert!(s0_15("xx"), "s0_15");
    assert!(c1_0(), "c1_0");
    assert!(s1_0(""), "s1_0");
    assert!(c1_1(), "c1_1");
    assert!(s1_1("a"), "s1_1");
    assert!(c1_2(), "c1_2");
    assert!(s1_2("abc"), "s1_2");
    assert!(c1_3(), "c1_3");
    assert!(s1_3("%a1"), "s1_3");
    assert!(c1_4(), "c1_4");
    assert!(s1_4("\u{e9}%x"), "s1_4");
    assert!(c1_5(), "c1_5");
    assert!(s1_5("a:b:c"), "s1_5");
    assert!(c1_6(), "c1_6");
    assert!(s1_6("::"), "s1_6");
    assert!(c1_7(), "c1_7");
    assert!(s1_7("  x "), "s1_7");
    assert!(c1_8(), "c1_8");
    assert!(s1_8("12"), "s1_8");
    assert!(c1_9(), "c1_9");
    assert!(s1_9("-5"), "s1_9");
    assert!(c1_10(), "c1_10");
    assert!(s1_10("+7"), "s1_10");
    assert!(c1_11(), "c1_11");
    assert!(s1_11("99999999999999999999"), "s1_11");
    assert!(c1_12(), "c1_12");
    assert!(s1_12("a\u{a}b\u{d}\u{a}c"), "s1_12");
    assert!(c1_13(), "c1_13");
    assert!(s1_13("\u{65e5}\u{672c}"), "s1_13");
    assert!(c1_14(), "c1_14");
    assert!(s1_14("\u{1f600}z"), "s1_14");
    assert!(c1_15(), "c1_15");
    assert!(s1_15("xx"), "s1_15");
    assert!(c2_0(), "c2_0");
    assert!(s2_0(""), "s2_0");
    assert!(c2_1(), "c2_1");
    assert!(s2_1("a"), "s2_1");
    assert!(c2_2(), "c2_2");
    assert!(s2_2("abc"), "s2_2");
    assert!(c2_3(), "c2_3");
    assert!(s2_3("%a1"), "s2_3");
    assert!(c2_4(), "c2_4");
    assert!(s2_4("\u{e9}%x"), "s2_4");
    assert!(c2_5(), "c2_5");
    assert!(s2_5("a:b:c"), "s2_5");
    assert!(c2_6(), "c2_6");
    assert!(s2_6("::"), "s2_6");
    assert!(c2_7(), "c2_7");
    assert!(s2_7("  x "), "s2_7");
    assert!(c2_8(), "c2_8");
    assert!(s2_8("12"), "s2_8");
    assert!(c2_9(), "c2_9");
    assert!(s2_9("-5"), "s2_9");
    assert!(c2_10(), "c2_10");
    assert!(s2_10("+7"), "s2_10");
    assert!(c2_11(), "c2_11");
    assert!(s2_11("99999999999999999999"), "s2_11");
    assert!(c2_12(), "c2_12");
    assert!(s2_12("a\u{a}b\u{d}\u{a}c"), "s2_12");
    assert!(c2_13(), "c2_13");
    assert!(s2_13("\u{65e5}\u{672c}"), "s2_13");
    assert!(c2_14(), "c2_14");
    assert!(s2_14("\u{1f600}z"), "s2_14");
    assert!(c2_15(), "c2_15");
    assert!(s2_15("xx"), "s2_15");
    assert!(c3_0(), "c3_0");
    assert!(s3_0(""), "s3_0");
    assert!(c3_1(), "c3_1");
    assert!(s3_1("a"), "s3_1");
    assert!(c3_2(), "c3_2");
    assert!(s3_2("abc"), "s3_2");
    assert!(c3_3(), "c3_3");
    assert!(s3_3("%a1"), "s3_3");
    assert!(c3_4(), "c3_4");
    assert!(s3_4("\u{e9}%x"), "s3_4");
    assert!(c3_5(), "c3_5");
    assert!(s3_5("a:b:c"), "s3_5");
    assert!(c3_6(), "c3_6");
    assert!(s3_6("::"), "s3_6");
    assert!(c3_7(), "c3_7");
    assert!(s3_7("  x "), "s3_7");
    assert!(c3_8(), "c3_8");
    assert!(s3_8("12"), "s3_8");
    assert!(c3_9(), "c3_9");
    assert!(s3_9("-5"), "s3_9");
    assert!(c3_10(), "c3_10");
    assert!(s3_10("+7"), "s3_10");
    assert!(c3_11(), "c3_11");
    assert!(s3_11("99999999999999999999"), "s3_11");
    assert!(c3_12(), "c3_12");
    assert!(s3_12("a\u{a}b\u{d}\u{a}c"), "s3_12");
    assert!(c3_13(), "c3_13");
    assert!(s3_13("\u{65e5}\u{672c}"), "s3_13");
    assert!(c3_14(), "c3_14");
    assert!(s3_14("\u{1f600}z"), "s3_14");
    assert!(c3_15(), "c3_15");
    assert!(s3_15("xx"), "s3_15");
    assert!(c4_0(), "c4_0");
    assert!(s4_0(""), "s4_0");
    assert!(c4_1(), "c4_1");
    assert!(s4_1("a"), "s4_1");
    assert!(c4_2(), "c4_2");
    assert!(s4_2("abc"), "s4_2");
    assert!(c4_3(), "c4_3");
    assert!(s4_3("%a1"), "s4_3");
    assert!(c4_4(), "c4_4");
    assert!(s4_4("\u{e9}%x"), "s4_4");
    assert!(c4_5(), "c4_5");
    assert!(s4_5("a:b:c"), "s4_5");
    assert!(c4_6(), "c4_6");
    assert!(s4_6("::"), "s4_6");
    assert!(c4_7(), "c4_7");
    assert!(s4_7("  x "), "s4_7");
    assert!(c4_8(), "c4_8");
    assert!(s4_8("12"), "s4_8");
    assert!(c4_9(), "c4_9");
    assert!(s4_9("-5"), "s4_9");
    assert!(c4_10(), "c4_10");
    assert!(s4_10("+7"), "s4_10");
    assert!(c4_11(), "c4_11");
    assert!(s4_11("99999999999999999999"), "s4_11");
    assert!(c4_12(), "c4_12");
    assert!(s4_12("a\u{a}b\u{d}\u{a}c"), "s4_12");
    assert!(c4_13(), "c4_13");
    assert!(s4_13("\u{65e5}\u{672c}"), "s4_13");
    assert!(c4_14(), "c4_14");
    assert!(s4_14("\u{1f600}z"), "s4_14");
    assert!(c4_15(), "c4_15");
    assert!(s4_15("xx"), "s4_15");
    assert!(c5_0(), "c5_0");
    assert!(s5_0(""), "s5_0");
    assert!(c5_1(), "c5_1");
    assert!(s5_1("a"), "s5_1");
    assert!(c5_2(), "c5_2");
    assert!(s5_2("abc"), "s5_2");
    assert!(c5_3(), "c5_3");
    assert!(s5_3("%a1"), "s5_3");
    assert!(c5_4(), "c5_4");
    assert!(s5_4("\u{e9}%x"), "s5_4");
    assert!(c5_5(), "c5_5");
    assert!(s5_5("a:b:c"), "s5_5");
    assert!(c5_6(), "c5_6");
    assert!(s5_6("::"), "s5_6");
    assert!(c5_7(), "c5_7");
    assert!(s5_7("  x "), "s5_7");
    assert!(c5_8(), "c5_8");
    assert!(s5_8("12"), "s5_8");
    assert!(c5_9(), "c5_9");
    assert!(s5_9("-5"), "s5_9");
    assert!(c5_10(), "c5_10");
    assert!(s5_10("+7"), "s5_10");
    assert!(c5_11(), "c5_11");
    assert!(s5_11("99999999999999999999"), "s5_11");
    assert!(c5_12(), "c5_12");
    assert!(s5_12("a\u{a}b\u{d}\u{a}c"), "s5_12");
    assert!(c5_13(), "c5_13");
    assert!(s5_13("\u{65e5}\u{672c}"), "s5_13");
    assert!(c5_14(), "c5_14");
    assert!(s5_14("\u{1f600}z"), "s5_14");
    assert!(c5_15(), "c5_15");
    assert!(s5_15("xx"), "s5_15");
    assert!(c6_0(), "c6_0");
    assert!(s6_0(""), "s6_0");
    assert!(c6_1(), "c6_1");
    assert!(s6_1("a"), "s6_1");
    assert!(c6_2(), "c6_2");
    assert!(s6_2("abc"), "s6_2");
    assert!(c6_3(), "c6_3");
    assert!(s6_3("%a1"), "s6_3");
    assert!(c6_4(), "c6_4");
    assert!(s6_4("\u{e9}%x"), "s6_4");
    assert!(c6_5(), "c6_5");
    assert!(s6_5("a:b:c"), "s6_5");
    assert!(c6_6(), "c6_6");
    assert!(s6_6("::"), "s6_6");
    assert!(c6_7(), "c6_7");
    assert!(s6_7("  x "), "s6_7");
    assert!(c6_8(), "c6_8");
    assert!(s6_8("12"), "s6_8");
    assert!(c6_9(), "c6_9");
    assert!(s6_9("-5"), "s6_9");
    assert!(c6_10(), "c6_10");
    assert!(s6_10("+7"), "s6_10");
    assert!(c6_11(), "c6_11");
    assert!(s6_11("99999999999999999999"), "s6_11");
    assert!(c6_12(), "c6_12");
    assert!(s6_12("a\u{a}b\u{d}\u{a}c"), "s6_12");
    assert!(c6_13(), "c6_13");
    assert!(s6_13("\u{65e5}\u{672c}"), "s6_13");
    assert!(c6_14(), "c6_14");
    assert!(s6_14("\u{1f600}z"), "s6_14");
    assert!(c6_15(), "c6_15");
    assert!(s6_15("xx"), "s6_15");
    assert!(c7_0(), "c7_0");
    assert!(s7_0(""), "s7_0");
    assert!(c7_1(), "c7_1");
    assert!(s7_1("a"), "s7_1");
    assert!(c7_2(), "c7_2");
    assert!(s7_2("abc"), "s7_2");
    assert!(c7_3(), "c7_3");
    assert!(s7_3("%a1"), "s7_3");
    assert!(c7_4(), "c7_4");
    assert!(s7_4("\u{e9}%x"), "s7_4");
    assert!(c7_5(), "c7_5");
    assert!(s7_5("a:b:c"), "s7_5");
    assert!(c7_6(), "c7_6");
    assert!(s7_6("::"), "s7_6");
    assert!(c7_7(), "c7_7");
    assert!(s7_7("  x "), "s7_7");
    assert!(c7_8(), "c7_8");
    assert!(s7_8("12"), "s7_8");
    assert!(c7_9(), "c7_9");
    assert!(s7_9("-5"), "s7_9");
    assert!(c7_10(), "c7_10");
    assert!(s7_10("+7"), "s7_10");
    assert!(c7_11(), "c7_11");
    assert!(s7_11("99999999999999999999"), "s7_11");
    assert!(c7_12(), "c7_12");
    assert!(s7_12("a\u{a}b\u{d}\u{a}c"), "s7_12");
    assert!(c7_13(), "c7_13");
    assert!(s7_13("\u{65e5}\u{672c}"), "s7_13");
    assert!(c7_14(), "c7_14");
    assert!(s7_14("\u{1f600}z"), "s7_14");
    assert!(c7_15(), "c7_15");
    assert!(s7_15("xx"), "s7_15");
    assert!(c8_0(), "c8_0");
    assert!(s8_0(""), "s8_0");
    assert!(c8_1(), "c8_1");
    assert!(s8_1("a"), "s8_1");
    assert!(c8_2(), "c8_2");
    assert!(s8_2("abc"), "s8_2");
    assert!(c8_3(), "c8_3");
    assert!(s8_3("%a1"), "s8_3");
    assert!(c8_4(), "c8_4");
    assert!(s8_4("\u{e9}%x"), "s8_4");
    assert!(c8_5(), "c8_5");
    assert!(s8_5("a:b:c"), "s8_5");
    assert!(c8_6(), "c8_6");
    assert!(s8_6("::"), "s8_6");
    assert!(c8_7(), "c8_7");
    assert!(s8_7("  x "), "s8_7");
    assert!(c8_8(), "c8_8");
    assert!(s8_8("12"), "s8_8");
    assert!(c8_9(), "c8_9");
    assert!(s8_9("-5"), "s8_9");
    assert!(c8_10(), "c8_10");
    assert!(s8_10("+7"), "s8_10");
    assert!(c8_11(), "c8_11");
    assert!(s8_11("99999999999999999999"), "s8_11");
    assert!(c8_12(), "c8_12");
    assert!(s8_12("a\u{a}b\u{d}\u{a}c"), "s8_12");
    assert!(c8_13(), "c8_13");
    assert!(s8_13("\u{65e5}\u{672c}"), "s8_13");
    assert!(c8_14(), "c8_14");
    assert!(s8_14("\u{1f600}z"), "s8_14");
    assert!(c8_15(), "c8_15");
    assert!(s8_15("xx"), "s8_15");
    assert!(c9_0(), "c9_0");
    assert!(s9_0(""), "s9_0");
    assert!(c9_1(), "c9_1");
    assert!(s9_1("a"), "s9_1");
    assert!(c9_2(), "c9_2");
    assert!(s9_2("abc"), "s9_2");
    assert!(c9_3(), "c9_3");
    assert!(s9_3("%a1"), "s9_3");
    assert!(c9_4(), "c9_4");
    assert!(s9_4("\u{e9}%x"), "s9_4");
    assert!(c9_5(), "c9_5");
    assert!(s9_5("a:b:c"), "s9_5");
    assert!(c9_6(), "c9_6");
    assert!(s9_6("::"), "s9_6");
    assert!(c9_7(), "c9_7");
    assert!(s9_7("  x "), "s9_7");
    assert!(c9_8(), "c9_8");
    assert!(s9_8("12"), "s9_8");
    assert!(c9_9(), "c9_9");
    assert!(s9_9("-5"), "s9_9");
    assert!(c9_10(), "c9_10");
    assert!(s9_10("+7"), "s9_10");
    assert!(c9_11(), "c9_11");
    assert!(s9_11("99999999999999999999"), "s9_11");
    assert!(c9_12(), "c9_12");
    assert!(s9_12("a\u{a}b\u{d}\u{a}c"), "s9_12");
    assert!(c9_13(), "c9_13");
    assert!(s9_13("\u{65e5}\u{672c}"), "s9_13");
    assert!(c9_14(), "c9_14");
    assert!(s9_14("\u{1f600}z"), "s9_14");
    assert!(c9_15(), "c9_15");
    assert!(s9_15("xx"), "s9_15");
    assert!(c10_0(), "c10_0");
    assert!(s10_0(""), "s10_0");
    assert!(c10_1(), "c10_1");
    assert!(s10_1("a"), "s10_1");
    assert!(c10_2(), "c10_2");
    assert!(s10_2("abc"), "s10_2");
    assert!(c10_3(), "c10_3");
    assert!(s10_3("%a1"), "s10_3");
    assert!(c10_4(), "c10_4");
    assert!(s10_4("\u{e9}%x"), "s10_4");
    assert!(c10_5(), "c10_5");
    assert!(s10_5("a:b:c"), "s10_5");
    assert!(c10_6(), "c10_6");
    assert!(s10_6("::"), "s10_6");
    assert!(c10_7(), "c10_7");
    assert!(s10_7("  x "), "s10_7");
    assert!(c10_8(), "c10_8");
    assert!(s10_8("12"), "s10_8");
    assert!(c10_9(), "c10_9");
    assert!(s10_9("-5"), "s10_9");
    assert!(c10_10(), "c10_10");
    assert!(s10_10("+7"), "s10_10");
    assert!(c10_11(), "c10_11");
    assert!(s10_11("99999999999999999999"), "s10_11");
    assert!(c10_12(), "c10_12");
    assert!(s10_12("a\u{a}b\u{d}\u{a}c"), "s10_12");
    assert!(c10_13(), "c10_13");
    assert!(s10_13("\u{65e5}\u{672c}"), "s10_13");
    assert!(c10_14(), "c10_14");
    assert!(s10_14("\u{1f600}z"), "s10_14");
    assert!(c10_15(), "c10_15");
    assert!(s10_15("xx"), "s10_15");
    assert!(c11_0(), "c11_0");
    assert!(s11_0(""), "s11_0");
    assert!(c11_1(), "c11_1");
    assert!(s11_1("a"), "s11_1");
    assert!(c11_2(), "c11_2");
    assert!(s11_2("abc"), "s11_2");
    assert!(c11_3(), "c11_3");
    assert!(s11_3("%a1"), "s11_3");
    assert!(c11_4(), "c11_4");
    assert!(s11_4("\u{e9}%x"), "s11_4");
    assert!(c11_5(), "c11_5");
    assert!(s11_5("a:b:c"), "s11_5");
    assert!(c11_6(), "c11_6");
    assert!(s11_6("::"), "s11_6");
    assert!(c11_7(), "c11_7");
    assert!(s11_7("  x "), "s11_7");
    assert!(c11_8(), "c11_8");
    assert!(s11_8("12"), "s11_8");
    assert!(c11_9(), "c11_9");
    assert!(s11_9("-5"), "s11_9");
    assert!(c11_10(), "c11_10");
    assert!(s11_10("+7"), "s11_10");
    assert!(c11_11(), "c11_11");
    assert!(s11_11("99999999999999999999"), "s11_11");
    assert!(c11_12(), "c11_12");
    assert!(s11_12("a\u{a}b\u{d}\u{a}c"), "s11_12");
    assert!(c11_13(), "c11_13");
    assert!(s11_13("\u{65e5}\u{672c}"), "s11_13");
    assert!(c11_14(), "c11_14");
    assert!(s11_14("\u{1f600}z"), "s11_14");
    assert!(c11_15(), "c11_15");
    assert!(s11_15("xx"), "s11_15");
    assert!(c12_0(), "c12_0");
    assert!(s12_0(""), "s12_0");
    assert!(c12_1(), "c12_1");
    assert!(s12_1("a"), "s12_1");
    assert!(c12_2(), "c12_2");
    assert!(s12_2("abc"), "s12_2");
    assert!(c12_3(), "c12_3");
    assert!(s12_3("%a1"), "s12_3");
    assert!(c12_4(), "c12_4");
    assert!(s12_4("\u{e9}%x"), "s12_4");
    assert!(c12_5(), "c12_5");
    assert!(s12_5("a:b:c"), "s12_5");
    assert!(c12_6(), "c12_6");
    assert!(s12_6("::"), "s12_6");
    assert!(c12_7(), "c12_7");
    assert!(s12_7("  x "), "s12_7");
    assert!(c12_8(), "c12_8");
    assert!(s12_8("12"), "s12_8");
    assert!(c12_9(), "c12_9");
    assert!(s12_9("-5"), "s12_9");
    assert!(c12_10(), "c12_10");
    assert!(s12_10("+7"), "s12_10");
    assert!(c12_11(), "c12_11");
    assert!(s12_11("99999999999999999999"), "s12_11");
    assert!(c12_12(), "c12_12");
    assert!(s12_12("a\u{a}b\u{d}\u{a}c"), "s12_12");
    assert!(c12_13(), "c12_13");
    assert!(s12_13("\u{65e5}\u{672c}"), "s12_13");
    assert!(c12_14(), "c12_14");
    assert!(s12_14("\u{1f600}z"), "s12_14");
    assert!(c12_15(), "c12_15");
    assert!(s12_15("xx"), "s12_15");
    assert!(c13_0(), "c13_0");
    assert!(s13_0(""), "s13_0");
    assert!(c13_1(), "c13_1");
    assert!(s13_1("a"), "s13_1");
    assert!(c13_2(), "c13_2");
    assert!(s13_2("abc"), "s13_2");
    assert!(c13_3(), "c13_3");
    assert!(s13_3("%a1"), "s13_3");
    assert!(c13_4(), "c13_4");
    assert!(s13_4("\u{e9}%x"), "s13_4");
    assert!(c13_5(), "c13_5");
    assert!(s13_5("a:b:c"), "s13_5");
    assert!(c13_6(), "c13_6");
    assert!(s13_6("::"), "s13_6");
    assert!(c13_7(), "c13_7");
    assert!(s13_7("  x "), "s13_7");
    assert!(c13_8(), "c13_8");
    assert!(s13_8("12"), "s13_8");
    assert!(c13_9(), "c13_9");
    assert!(s13_9("-5"), "s13_9");
    assert!(c13_10(), "c13_10");
    assert!(s13_10("+7"), "s13_10");
    assert!(c13_11(), "c13_11");
    assert!(s13_11("99999999999999999999"), "s13_11");
    assert!(c13_12(), "c13_12");
    assert!(s13_12("a\u{a}b\u{d}\u{a}c"), "s13_12");
    assert!(c13_13(), "c13_13");
    assert!(s13_13("\u{65e5}\u{672c}"), "s13_13");
    assert!(c13_14(), "c13_14");
    assert!(s13_14("\u{1f600}z"), "s13_14");
    assert!(c13_15(), "c13_15");
    assert!(s13_15("xx"), "s13_15");
    assert!(c14_0(), "c14_0");
    assert!(s14_0(""), "s14_0");
    assert!(c14_1(), "c14_1");
    assert!(s14_1("a"), "s14_1");
    assert!(c14_2(), "c14_2");
    assert!(s14_2("abc"), "s14_2");
    assert!(c14_3(), "c14_3");
    assert!(s14_3("%a1"), "s14_3");
    assert!(c14_4(), "c14_4");
    assert!(s14_4("\u{e9}%x"), "s14_4");
    assert!(c14_5(), "c14_5");
    assert!(s14_5("a:b:c"), "s14_5");
    assert!(c14_6(), "c14_6");
    assert!(s14_6("::"), "s14_6");
    assert!(c14_7(), "c14_7");
    assert!(s14_7("  x "), "s14_7");
    assert!(c14_8(), "c14_8");
    assert!(s14_8("12"), "s14_8");
    assert!(c14_9(), "c14_9");
    assert!(s14_9("-5"), "s14_9");
    assert!(c14_10(), "c14_10");
    assert!(s14_10("+7"), "s14_10");
    assert!(c14_11(), "c14_11");
    assert!(s14_11("99999999999999999999"), "s14_11");
    assert!(c14_12(), "c14_12");
    assert!(s14_12("a\u{a}b\u{d}\u{a}c"), "s14_12");
    assert!(c14_13(), "c14_13");
    assert!(s14_13("\u{65e5}\u{672c}"), "s14_13");
    assert!(c14_14(), "c14_14");
    assert!(s14_14("\u{1f600}z"), "s14_14");
    assert!(c14_15(), "c14_15");
    assert!(s14_15("xx"), "s14_15");
    assert!(c15_0(), "c15_0");
    assert!(s15_0(""), "s15_0");
    assert!(c15_1(), "c15_1");
    assert!(s15_1("a"), "s15_1");
    assert!(c15_2(), "c15_2");
    assert!(s15_2("abc"), "s15_2");
    assert!(c15_3(), "c15_3");
    assert!(s15_3("%a1"), "s15_3");
    assert!(c15_4(), "c15_4");
    assert!(s15_4("\u{e9}%x"), "s15_4");
    assert!(c15_5(), "c15_5");
    assert!(s15_5("a:b:c"), "s15_5");
    assert!(c15_6(), "c15_6");
    assert!(s15_6("::"), "s15_6");
    assert!(c15_7(), "c15_7");
    assert!(s15_7("  x "), "s15_7");
    assert!(c15_8(), "c15_8");
    assert!(s15_8("12"), "s15_8");
    assert!(c15_9(), "c15_9");
    assert!(s15_9("-5"), "s15_9");
    assert!(c15_10(), "c15_10");
    assert!(s15_10("+7"), "s15_10");
    assert!(c15_11(), "c15_11");
    assert!(s15_11("99999999999999999999"), "s15_11");
    assert!(c15_12(), "c15_12");
    assert!(s15_12("a\u{a}b\u{d}\u{a}c"), "s15_12");
    assert!(c15_13(), "c15_13");
    assert!(s15_13("\u{65e5}\u{672c}"), "s15_13");
    assert!(c15_14(), "c15_14");
    assert!(s15_14("\u{1f600}z"), "s15_14");
    assert!(c15_15(), "c15_15");
    assert!(s15_15("xx"), "s15_15");
    assert!(c16_0(), "c16_0");
    assert!(s16_0(""), "s16_0");
    assert!(c16_1(), "c16_1");
    assert!(s16_1("a"), "s16_1");
    assert!(c16_2(), "c16_2");
    assert!(s16_2("abc"), "s16_2");
    assert!(c16_3(), "c16_3");
    assert!(s16_3("%a1"), "s16_3");
    assert!(c16_4(), "c16_4");
    assert!(s16_4("\u{e9}%x"), "s16_4");
    assert!(c16_5(), "c16_5");
    assert!(s16_5("a:b:c"), "s16_5");
    assert!(c16_6(), "c16_6");
    assert!(s16_6("::"), "s16_6");
    assert!(c16_7(), "c16_7");
    assert!(s16_7("  x "), "s16_7");
    assert!(c16_8(), "c16_8");
    assert!(s16_8("12"), "s16_8");
    assert!(c16_9(), "c16_9");
    assert!(s16_9("-5"), "s16_9");
    assert!(c16_10(), "c16_10");
    assert!(s16_10("+7"), "s16_10");
    assert!(c16_11(), "c16_11");
    assert!(s16_11("99999999999999999999"), "s16_11");
    assert!(c16_12(), "c16_12");
    assert!(s16_12("a\u{a}b\u{d}\u{a}c"), "s16_12");
    assert!(c16_13(), "c16_13");
    assert!(s16_13("\u{65e5}\u{672c}"), "s16_13");
    assert!(c16_14(), "c16_14");
    assert!(s16_14("\u{1f600}z"), "s16_14");
    assert!(c16_15(), "c16_15");
    assert!(s16_15("xx"), "s16_15");
    assert!(c17_0(), "c17_0");
    assert!(s17_0(""), "s17_0");
    assert!(c17_1(), "c17_1");
    assert!(s17_1("a"), "s17_1");
    assert!(c17_2(), "c17_2");
    assert!(s17_2("abc"), "s17_2");
    assert!(c17_3(), "c17_3");
    assert!(s17_3("%a1"), "s17_3");
    assert!(c17_4(), "c17_4");
    assert!(s17_4("\u{e9}%x"), "s17_4");
    assert!(c17_5(), "c17_5");
    assert!(s17_5("a:b:c"), "s17_5");
    assert!(c17_6(), "c17_6");
    assert!(s17_6("::"), "s17_6");
    assert!(c17_7(), "c17_7");
    assert!(s17_7("  x "), "s17_7");
    assert!(c17_8(), "c17_8");
    assert!(s17_8("12"), "s17_8");
    assert!(c17_9(), "c17_9");
    assert!(s17_9("-5"), "s17_9");
    assert!(c17_10(), "c17_10");
    assert!(s17_10("+7"), "s17_10");
    assert!(c17_11(), "c17_11");
    assert!(s17_11("99999999999999999999"), "s17_11");
    assert!(c17_12(), "c17_12");
    assert!(s17_12("a\u{a}b\u{d}\u{a}c"), "s17_12");
    assert!(c17_13(), "c17_13");
    assert!(s17_13("\u{65e5}\u{672c}"), "s17_13");
    assert!(c17_14(), "c17_14");
    assert!(s17_14("\u{1f600}z"), "s17_14");
    assert!(c17_15(), "c17_15");
    assert!(s17_15("xx"), "s17_15");
    assert!(c18_0(), "c18_0");
    assert!(s18_0(""), "s18_0");
    assert!(c18_1(), "c18_1");
    assert!(s18_1("a"), "s18_1");
    assert!(c18_2(), "c18_2");
    assert!(s18_2("abc"), "s18_2");
    assert!(c18_3(), "c18_3");
    assert!(s18_3("%a1"), "s18_3");
    assert!(c18_4(), "c18_4");
    assert!(s18_4("\u{e9}%x"), "s18_4");
    assert!(c18_5(), "c18_5");
    assert!(s18_5("a:b:c"), "s18_5");
    assert!(c18_6(), "c18_6");
    assert!(s18_6("::"), "s18_6");
    assert!(c18_7(), "c18_7");
    assert!(s18_7("  x "), "s18_7");
    assert!(c18_8(), "c18_8");
    assert!(s18_8("12"), "s18_8");
    assert!(c18_9(), "c18_9");
    assert!(s18_9("-5"), "s18_9");
    assert!(c18_10(), "c18_10");
    assert!(s18_10("+7"), "s18_10");
    assert!(c18_11(), "c18_11");
    assert!(s18_11("99999999999999999999"), "s18_11");
    assert!(c18_12(), "c18_12");
    assert!(s18_12("a\u{a}b\u{d}\u{a}c"), "s18_12");
    assert!(c18_13(), "c18_13");
    assert!(s18_13("\u{65e5}\u{672c}"), "s18_13");
    assert!(c18_14(), "c18_14");
    assert!(s18_14("\u{1f600}z"), "s18_14");
    assert!(c18_15(), "c18_15");
    assert!(s18_15("xx"), "s18_15");
    assert!(c19_0(), "c19_0");
    assert!(s19_0(""), "s19_0");
    assert!(c19_1(), "c19_1");
    assert!(s19_1("a"), "s19_1");
    assert!(c19_2(), "c19_2");
    assert!(s19_2("abc"), "s19_2");
    assert!(c19_3(), "c19_3");
    assert!(s19_3("%a1"), "s19_3");
    assert!(c19_4(), "c19_4");
    assert!(s19_4("\u{e9}%x"), "s19_4");
    assert!(c19_5(), "c19_5");
    assert!(s19_5("a:b:c"), "s19_5");
    assert!(c19_6(), "c19_6");
    assert!(s19_6("::"), "s19_6");
    assert!(c19_7(), "c19_7");
    assert!(s19_7("  x "), "s19_7");
    assert!(c19_8(), "c19_8");
    assert!(s19_8("12"), "s19_8");
    assert!(c19_9(), "c19_9");
    assert!(s19_9("-5"), "s19_9");
    assert!(c19_10(), "c19_10");
    assert!(s19_10("+7"), "s19_10");
    assert!(c19_11(), "c19_11");
    assert!(s19_11("99999999999999999999"), "s19_11");
    assert!(c19_12(), "c19_12");
    assert!(s19_12("a\u{a}b\u{d}\u{a}c"), "s19_12");
    assert!(c19_13(), "c19_13");
    assert!(s19_13("\u{65e5}\u{672c}"), "s19_13");
    assert!(c19_14(), "c19_14");
    assert!(s19_14("\u{1f600}z"), "s19_14");
    assert!(c19_15(), "c19_15");
    assert!(s19_15("xx"), "s19_15");
    assert!(c20_0(), "c20_0");
    assert!(s20_0("", "a"), "s20_0");
    assert!(c20_1(), "c20_1");
    assert!(s20_1("", ":"), "s20_1");
    assert!(c20_2(), "c20_2");
    assert!(s20_2("", "x"), "s20_2");
    assert!(c20_3(), "c20_3");
    assert!(s20_3("", "b:"), "s20_3");
    assert!(c20_4(), "c20_4");
    assert!(s20_4("", "zz"), "s20_4");
    assert!(c20_5(), "c20_5");
    assert!(s20_5("a", "a"), "s20_5");
    assert!(c20_6(), "c20_6");
    assert!(s20_6("a", ":"), "s20_6");
    assert!(c20_7(), "c20_7");
    assert!(s20_7("a", "x"), "s20_7");
    assert!(c20_8(), "c20_8");
    assert!(s20_8("a", "b:"), "s20_8");
    assert!(c20_9(), "c20_9");
    assert!(s20_9("a", "zz"), "s20_9");
    assert!(c20_10(), "c20_10");
    assert!(s20_10("abc", "a"), "s20_10");
    assert!(c20_11(), "c20_11");
    assert!(s20_11("abc", ":"), "s20_11");
    assert!(c20_12(), "c20_12");
    assert!(s20_12("abc", "x"), "s20_12");
    assert!(c20_13(), "c20_13");
    assert!(s20_13("abc", "b:"), "s20_13");
    assert!(c20_14(), "c20_14");
    assert!(s20_14("abc", "zz"), "s20_14");
    assert!(c20_15(), "c20_15");
    assert!(s20_15("%a1", "a"), "s20_15");
    assert!(c20_16(), "c20_16");
    assert!(s20_16("%a1", ":"), "s20_16");
    assert!(c20_17(), "c20_17");
    assert!(s20_17("%a1", "x"), "s20_17");
    assert!(c20_18(), "c20_18");
    assert!(s20_18("%a1", "b:"), "s20_18");
    assert!(c20_19(), "c20_19");
    assert!(s20_19("%a1", "zz"), "s20_19");
    assert!(c20_20(), "c20_20");
    assert!(s20_20("\u{e9}%x", "a"), "s20_20");
    assert!(c20_21(), "c20_21");
    assert!(s20_21("\u{e9}%x", ":"), "s20_21");
    assert!(c20_22(), "c20_22");
    assert!(s20_22("\u{e9}%x", "x"), "s20_22");
    assert!(c20_23(), "c20_23");
    assert!(s20_23("\u{e9}%x", "b:"), "s20_23");
    assert!(c20_24(), "c20_24");
    assert!(s20_24("\u{e9}%x", "zz"), "s20_24");
    assert!(c20_25(), "c20_25");
    assert!(s20_25("a:b:c", "a"), "s20_25");
    assert!(c20_26(), "c20_26");
    assert!(s20_26("a:b:c", ":"), "s20_26");
    assert!(c20_27(), "c20_27");
    assert!(s20_27("a:b:c", "x"), "s20_27");
    assert!(c20_28(), "c20_28");
    assert!(s20_28("a:b:c", "b:"), "s20_28");
    assert!(c20_29(), "c20_29");
    assert!(s20_29("a:b:c", "zz"), "s20_29");
    assert!(c20_30(), "c20_30");
    assert!(s20_30("::", "a"), "s20_30");
    assert!(c20_31(), "c20_31");
    assert!(s20_31("::", ":"), "s20_31");
    assert!(c20_32(), "c20_32");
    assert!(s20_32("::", "x"), "s20_32");
    assert!(c20_33(), "c20_33");
    assert!(s20_33("::", "b:"), "s20_33");
    assert!(c20_34(), "c20_34");
    assert!(s20_34("::", "zz"), "s20_34");
    assert!(c20_35(), "c20_35");
    assert!(s20_35("  x ", "a"), "s20_35");
    assert!(c20_36(), "c20_36");
    assert!(s20_36("  x ", ":"), "s20_36");
    assert!(c20_37(), "c20_37");
    assert!(s20_37("  x ", "x"), "s20_37");
    assert!(c20_38(), "c20_38");
    assert!(s20_38("  x ", "b:"), "s20_38");
    assert!(c20_39(), "c20_39");
    assert!(s20_39("  x ", "zz"), "s20_39");
    assert!(c20_40(), "c20_40");
    assert!(s20_40("12", "a"), "s20_40");
    assert!(c20_41(), "c20_41");
    assert!(s20_41("12", ":"), "s20_41");
    assert!(c20_42(), "c20_42");
    assert!(s20_42("12", "x"), "s20_42");
    assert!(c20_43(), "c20_43");
    assert!(s20_43("12", "b:"), "s20_43");
    assert!(c20_44(), "c20_44");
    assert!(s20_44("12", "zz"), "s20_44");
    assert!(c20_45(), "c20_45");
    assert!(s20_45("-5", "a"), "s20_45");
    assert!(c20_46(), "c20_46");
    assert!(s20_46("-5", ":"), "s20_46");
    assert!(c20_47(), "c20_47");
    assert!(s20_47("-5", "x"), "s20_47");
    assert!(c20_48(), "c20_48");
    assert!(s20_48("-5", "b:"), "s20_48");
    assert!(c20_49(), "c20_49");
    assert!(s20_49("-5", "zz"), "s20_49");
    assert!(c20_50(), "c20_50");
    assert!(s20_50("+7", "a"), "s20_50");
    assert!(c20_51(), "c20_51");
    assert!(s20_51("+7", ":"), "s20_51");
    assert!(c20_52(), "c20_52");
    assert!(s20_52("+7", "x"), "s20_52");
    assert!(c20_53(), "c20_53");
    assert!(s20_53("+7", "b:"), "s20_53");
    assert!(c20_54(), "c20_54");
    assert!(s20_54("+7", "zz"), "s20_54");
    assert!(c20_55(), "c20_55");
    assert!(s20_55("99999999999999999999", "a"), "s20_55");
    assert!(c20_56(), "c20_56");
    assert!(s20_56("99999999999999999999", ":"), "s20_56");
    assert!(c20_57(), "c20_57");
    assert!(s20_57("99999999999999999999", "x"), "s20_57");
    assert!(c20_58(), "c20_58");
    assert!(s20_58("99999999999999999999", "b:"), "s20_58");
    assert!(c20_59(), "c20_59");
    assert!(s20_59("99999999999999999999", "zz"), "s20_59");
    assert!(c20_60(), "c20_60");
    assert!(s20_60("a\u{a}b\u{d}\u{a}c", "a"), "s20_60");
    assert!(c20_61(), "c20_61");
    assert!(s20_61("a\u{a}b\u{d}\u{a}c", ":"), "s20_61");
    assert!(c20_62(), "c20_62");
    assert!(s20_62("a\u{a}b\u{d}\u{a}c", "x"), "s20_62");
    assert!(c20_63(), "c20_63");
    assert!(s20_63("a\u{a}b\u{d}\u{a}c", "b:"), "s20_63");
    assert!(c20_64(), "c20_64");
    assert!(s20_64("a\u{a}b\u{d}\u{a}c", "zz"), "s20_64");
    assert!(c20_65(), "c20_65");
    assert!(s20_65("\u{65e5}\u{672c}", "a"), "s20_65");
    assert!(c20_66(), "c20_66");
    assert!(s20_66("\u{65e5}\u{672c}", ":"), "s20_66");
    assert!(c20_67(), "c20_67");
    assert!(s20_67("\u{65e5}\u{672c}", "x"), "s20_67");
    assert!(c20_68(), "c20_68");
    assert!(s20_68("\u{65e5}\u{672c}", "b:"), "s20_68");
    assert!(c20_69(), "c20_69");
    assert!(s20_69("\u{65e5}\u{672c}", "zz"), "s20_69");
    assert!(c20_70(), "c20_70");
    assert!(s20_70("\u{1f600}z", "a"), "s20_70");
    assert!(c20_71(), "c20_71");
    assert!(s20_71("\u{1f600}z", ":"), "s20_71");
    assert!(c20_72(), "c20_72");
    assert!(s20_72("\u{1f600}z", "x"), "s20_72");
    assert!(c20_73(), "c20_73");
    assert!(s20_73("\u{1f600}z", "b:"), "s20_73");
    assert!(c20_74(), "c20_74");
    assert!(s20_74("\u{1f600}z", "zz"), "s20_74");
    assert!(c20_75(), "c20_75");
    assert!(s20_75("xx", "a"), "s20_75");
    assert!(c20_76(), "c20_76");
    assert!(s20_76("xx", ":"), "s20_76");
    assert!(c20_77(), "c20_77");
    assert!(s20_77("xx", "x"), "s20_77");
    assert!(c20_78(), "c20_78");
    assert!(s20_78("xx", "b:"), "s20_78");
    assert!(c20_79(), "c20_79");
    assert!(s20_79("xx", "zz"), "s20_79");
    assert!(c21_0(), "c21_0");
    assert!(s21_0("", "a"), "s21_0");
    assert!(c21_1(), "c21_1");
    assert!(s21_1("", ":"), "s21_1");
    assert!(c21_2(), "c21_2");
    assert!(s21_2("", "x"), "s21_2");
    assert!(c21_3(), "c21_3");
    assert!(s21_3("", "b:"), "s21_3");
    assert!(c21_4(), "c21_4");
    assert!(s21_4("", "zz"), "s21_4");
    assert!(c21_5(), "c21_5");
    assert!(s21_5("a", "a"), "s21_5");
    assert!(c21_6(), "c21_6");
    assert!(s21_6("a", ":"), "s21_6");
    assert!(c21_7(), "c21_7");
    assert!(s21_7("a", "x"), "s21_7");
    assert!(c21_8(), "c21_8");
    assert!(s21_8("a", "b:"), "s21_8");
    assert!(c21_9(), "c21_9");
    assert!(s21_9("a", "zz"), "s21_9");
    assert!(c21_10(), "c21_10");
    assert!(s21_10("abc", "a"), "s21_10");
    assert!(c21_11(), "c21_11");
    assert!(s21_11("abc", ":"), "s21_11");
    assert!(c21_12(), "c21_12");
    assert!(s21_12("abc", "x"), "s21_12");
    assert!(c21_13(), "c21_13");
    assert!(s21_13("abc", "b:"), "s21_13");
    assert!(c21_14(), "c21_14");
    assert!(s21_14("abc", "zz"), "s21_14");
    assert!(c21_15(), "c21_15");
    assert!(s21_15("%a1", "a"), "s21_15");
    assert!(c21_16(), "c21_16");
    assert!(s21_16("%a1", ":"), "s21_16");
    assert!(c21_17(), "c21_17");
    assert!(s21_17("%a1", "x"), "s21_17");
    assert!(c21_18(), "c21_18");
    assert!(s21_18("%a1", "b:"), "s21_18");
    assert!(c21_19(), "c21_19");
    assert!(s21_19("%a1", "zz"), "s21_19");
    assert!(c21_20(), "c21_20");
    assert!(s21_20("\u{e9}%x", "a"), "s21_20");
    assert!(c21_21(), "c21_21");
    assert!(s21_21("\u{e9}%x", ":"), "s21_21");
    assert!(c21_22(), "c21_22");
    assert!(s21_22("\u{e9}%x", "x"), "s21_22");
    assert!(c21_23(), "c21_23");
    assert!(s21_23("\u{e9}%x", "b:"), "s21_23");
    assert!(c21_24(), "c21_24");
    assert!(s21_24("\u{e9}%x", "zz"), "s21_24");
    assert!(c21_25(), "c21_25");
    assert!(s21_25("a:b:c", "a"), "s21_25");
    assert!(c21_26(), "c21_26");
    assert!(s21_26("a:b:c", ":"), "s21_26");
    assert!(c21_27(), "c21_27");
    assert!(s21_27("a:b:c", "x"), "s21_27");
    assert!(c21_28(), "c21_28");
    assert!(s21_28("a:b:c", "b:"), "s21_28");
    assert!(c21_29(), "c21_29");
    assert!(s21_29("a:b:c", "zz"), "s21_29");
    assert!(c21_30(), "c21_30");
    assert!(s21_30("::", "a"), "s21_30");
    assert!(c21_31(), "c21_31");
    assert!(s21_31("::", ":"), "s21_31");
    assert!(c21_32(), "c21_32");
    assert!(s21_32("::", "x"), "s21_32");
    assert!(c21_33(), "c21_33");
    assert!(s21_33("::", "b:"), "s21_33");
    assert!(c21_34(), "c21_34");
    assert!(s21_34("::", "zz"), "s21_34");
    assert!(c21_35(), "c21_35");
    assert!(s21_35("  x ", "a"), "s21_35");
    assert!(c21_36(), "c21_36");
    assert!(s21_36("  x ", ":"), "s21_36");
    assert!(c21_37(), "c21_37");
    assert!(s21_37("  x ", "x"), "s21_37");
    assert!(c21_38(), "c21_38");
    assert!(s21_38("  x ", "b:"), "s21_38");
    assert!(c21_39(), "c21_39");
    assert!(s21_39("  x ", "zz"), "s21_39");
    assert!(c21_40(), "c21_40");
    assert!(s21_40("12", "a"), "s21_40");
    assert!(c21_41(), "c21_41");
    assert!(s21_41("12", ":"), "s21_41");
    assert!(c21_42(), "c21_42");
    assert!(s21_42("12", "x"), "s21_42");
    assert!(c21_43(), "c21_43");
    assert!(s21_43("12", "b:"), "s21_43");
    assert!(c21_44(), "c21_44");
    assert!(s21_44("12", "zz"), "s21_44");
    assert!(c21_45(), "c21_45");
    assert!(s21_45("-5", "a"), "s21_45");
    assert!(c21_46(), "c21_46");
    assert!(s21_46("-5", ":"), "s21_46");
    assert!(c21_47(), "c21_47");
    assert!(s21_47("-5", "x"), "s21_47");
    assert!(c21_48(), "c21_48");
    assert!(s21_48("-5", "b:"), "s21_48");
    assert!(c21_49(), "c21_49");
    assert!(s21_49("-5", "zz"), "s21_49");
    assert!(c21_50(), "c21_50");
    assert!(s21_50("+7", "a"), "s21_50");
    assert!(c21_51(), "c21_51");
    assert!(s21_51("+7", ":"), "s21_51");
    assert!(c21_52(), "c21_52");
    assert!(s21_52("+7", "x"), "s21_52");
    assert!(c21_53(), "c21_53");
    assert!(s21_53("+7", "b:"), "s21_53");
    assert!(c21_54(), "c21_54");
    assert!(s21_54("+7", "zz"), "s21_54");
    assert!(c21_55(), "c21_55");
    assert!(s21_55("99999999999999999999", "a"), "s21_55");
    assert!(c21_56(), "c21_56");
    assert!(s21_56("99999999999999999999", ":"), "s21_56");
    assert!(c21_57(), "c21_57");
    assert!(s21_57("99999999999999999999", "x"), "s21_57");
    assert!(c21_58(), "c21_58");
    assert!(s21_58("99999999999999999999", "b:"), "s21_58");
    assert!(c21_59(), "c21_59");
    assert!(s21_59("99999999999999999999", "zz"), "s21_59");
    assert!(c21_60(), "c21_60");
    assert!(s21_60("a\u{a}b\u{d}\u{a}c", "a"), "s21_60");
    assert!(c21_61(), "c21_61");
    assert!(s21_61("a\u{a}b\u{d}\u{a}c", ":"), "s21_61");
    assert!(c21_62(), "c21_62");
    assert!(s21_62("a\u{a}b\u{d}\u{a}c", "x"), "s21_62");
    assert!(c21_63(), "c21_63");
    assert!(s21_63("a\u{a}b\u{d}\u{a}c", "b:"), "s21_63");
    assert!(c21_64(), "c21_64");
    assert!(s21_64("a\u{a}b\u{d}\u{a}c", "zz"), "s21_64");
    assert!(c21_65(), "c21_65");
    assert!(s21_65("\u{65e5}\u{672c}", "a"), "s21_65");
    assert!(c21_66(), "c21_66");
    assert!(s21_66("\u{65e5}\u{672c}", ":"), "s21_66");
    assert!(c21_67(), "c21_67");
    assert!(s21_67("\u{65e5}\u{672c}", "x"), "s21_67");
    assert!(c21_68(), "c21_68");
    assert!(s21_68("\u{65e5}\u{672c}", "b:"), "s21_68");
    assert!(c21_69(), "c21_69");
    assert!(s21_69("\u{65e5}\u{672c}", "zz"), "s21_69");
    assert!(c21_70(), "c21_70");
    assert!(s21_70("\u{1f600}z", "a"), "s21_70");
    assert!(c21_71(), "c21_71");
    assert!(s21_71("\u{1f600}z", ":"), "s21_71");
    assert!(c21_72(), "c21_72");
    assert!(s21_72("\u{1f600}z", "x"), "s21_72");
    assert!(c21_73(), "c21_73");
    assert!(s21_73("\u{1f600}z", "b:"), "s21_73");
    assert!(c21_74(), "c21_74");
    assert!(s21_74("\u{1f600}z", "zz"), "s21_74");
    assert!(c21_75(), "c21_75");
    assert!(s21_75("xx", "a"), "s21_75");
    assert!(c21_76(), "c21_76");
    assert!(s21_76("xx", ":"), "s21_76");
    assert!(c21_77(), "c21_77");
    assert!(s21_77("xx", "x"), "s21_77");
    assert!(c21_78(), "c21_78");
    assert!(s21_78("xx", "b:"), "s21_78");
    assert!(c21_79(), "c21_79");
    assert!(s21_79("xx", "zz"), "s21_79");
    assert!(c22_0(), "c22_0");
    assert!(s22_0("", "a"), "s22_0");
    assert!(c22_1(), "c22_1");
    assert!(s22_1("", ":"), "s22_1");
    assert!(c22_2(), "c22_2");
    assert!(s22_2("", "x"), "s22_2");
    assert!(c22_3(), "c22_3");
    assert!(s22_3("", "b:"), "s22_3");
    assert!(c22_4(), "c22_4");
    assert!(s22_4("", "zz"), "s22_4");
    assert!(c22_5(), "c22_5");
    assert!(s22_5("a", "a"), "s22_5");
    assert!(c22_6(), "c22_6");
    assert!(s22_6("a", ":"), "s22_6");
    assert!(c22_7(), "c22_7");
    assert!(s22_7("a", "x"), "s22_7");
    assert!(c22_8(), "c22_8");
    assert!(s22_8("a", "b:"), "s22_8");
    assert!(c22_9(), "c22_9");
    assert!(s22_9("a", "zz"), "s22_9");
    assert!(c22_10(), "c22_10");
    assert!(s22_10("abc", "a"), "s22_10");
    assert!(c22_11(), "c22_11");
    assert!(s22_11("abc", ":"), "s22_11");
    assert!(c22_12(), "c22_12");
    assert!(s22_12("abc", "x"), "s22_12");
    assert!(c22_13(), "c22_13");
    assert!(s22_13("abc", "b:"), "s22_13");
    assert!(c22_14(), "c22_14");
    assert!(s22_14("abc", "zz"), "s22_14");
    assert!(c22_15(), "c22_15");
    assert!(s22_15("%a1", "a"), "s22_15");
    assert!(c22_16(), "c22_16");
    assert!(s22_16("%a1", ":"), "s22_16");
    assert!(c22_17(), "c22_17");
    assert!(s22_17("%a1", "x"), "s22_17");
    assert!(c22_18(), "c22_18");
    assert!(s22_18("%a1", "b:"), "s22_18");
    assert!(c22_19(), "c22_19");
    assert!(s22_19("%a1", "zz"), "s22_19");
    assert!(c22_20(), "c22_20");
    assert!(s22_20("\u{e9}%x", "a"), "s22_20");
    assert!(c22_21(), "c22_21");
    assert!(s22_21("\u{e9}%x", ":"), "s22_21");
    assert!(c22_22(), "c22_22");
    assert!(s22_22("\u{e9}%x", "x"), "s22_22");
    assert!(c22_23(), "c22_23");
    assert!(s22_23("\u{e9}%x", "b:"), "s22_23");
    assert!(c22_24(), "c22_24");
    assert!(s22_24("\u{e9}%x", "zz"), "s22_24");
    assert!(c22_25(), "c22_25");
    assert!(s22_25("a:b:c", "a"), "s22_25");
    assert!(c22_26(), "c22_26");
    assert!(s22_26("a:b:c", ":"), "s22_26");
    assert!(c22_27(), "c22_27");
    assert!(s22_27("a:b:c", "x"), "s22_27");
    assert!(c22_28(), "c22_28");
    assert!(s22_28("a:b:c", "b:"), "s22_28");
    assert!(c22_29(), "c22_29");
    assert!(s22_29("a:b:c", "zz"), "s22_29");
    assert!(c22_30(), "c22_30");
    assert!(s22_30("::", "a"), "s22_30");
    assert!(c22_31(), "c22_31");
    assert!(s22_31("::", ":"), "s22_31");
    assert!(c22_32(), "c22_32");
    assert!(s22_32("::", "x"), "s22_32");
    assert!(c22_33(), "c22_33");
    assert!(s22_33("::", "b:"), "s22_33");
    assert!(c22_34(), "c22_34");
    assert!(s22_34("::", "zz"), "s22_34");
    assert!(c22_35(), "c22_35");
    assert!(s22_35("  x ", "a"), "s22_35");
    assert!(c22_36(), "c22_36");
    assert!(s22_36("  x ", ":"), "s22_36");
    assert!(c22_37(), "c22_37");
    assert!(s22_37("  x ", "x"), "s22_37");
    assert!(c22_38(), "c22_38");
    assert!(s22_38("  x ", "b:"), "s22_38");
    assert!(c22_39(), "c22_39");
    assert!(s22_39("  x ", "zz"), "s22_39");
    assert!(c22_40(), "c22_40");
    assert!(s22_40("12", "a"), "s22_40");
    assert!(c22_41(), "c22_41");
    assert!(s22_41("12", ":"), "s22_41");
    assert!(c22_42(), "c22_42");
    assert!(s22_42("12", "x"), "s22_42");
    assert!(c22_43(), "c22_43");
    assert!(s22_43("12", "b:"), "s22_43");
    assert!(c22_44(), "c22_44");
    assert!(s22_44("12", "zz"), "s22_44");
    assert!(c22_45(), "c22_45");
    assert!(s22_45("-5", "a"), "s22_45");
    assert!(c22_46(), "c22_46");
    assert!(s22_46("-5", ":"), "s22_46");
    assert!(c22_47(), "c22_47");
    assert!(s22_47("-5", "x"), "s22_47");
    assert!(c22_48(), "c22_48");
    assert!(s22_48("-5", "b:"), "s22_48");
    assert!(c22_49(), "c22_49");
    assert!(s22_49("-5", "zz"), "s22_49");
    assert!(c22_50(), "c22_50");
    assert!(s22_50("+7", "a"), "s22_50");
    assert!(c22_51(), "c22_51");
    assert!(s22_51("+7", ":"), "s22_51");
    assert!(c22_52(), "c22_52");
    assert!(s22_52("+7", "x"), "s22_52");
    assert!(c22_53(), "c22_53");
    assert!(s22_53("+7", "b:"), "s22_53");
    assert!(c22_54(), "c22_54");
    assert!(s22_54("+7", "zz"), "s22_54");
    assert!(c22_55(), "c22_55");
    assert!(s22_55("99999999999999999999", "a"), "s22_55");
    assert!(c22_56(), "c22_56");
    assert!(s22_56("99999999999999999999", ":"), "s22_56");
    assert!(c22_57(), "c22_57");
    assert!(s22_57("99999999999999999999", "x"), "s22_57");
    assert!(c22_58(), "c22_58");
    assert!(s22_58("99999999999999999999", "b:"), "s22_58");
    assert!(c22_59(), "c22_59");
    assert!(s22_59("99999999999999999999", "zz"), "s22_59");
    assert!(c22_60(), "c22_60");
    assert!(s22_60("a\u{a}b\u{d}\u{a}c", "a"), "s22_60");
    assert!(c22_61(), "c22_61");
    assert!(s22_61("a\u{a}b\u{d}\u{a}c", ":"), "s22_61");
    assert!(c22_62(), "c22_62");
    assert!(s22_62("a\u{a}b\u{d}\u{a}c", "x"), "s22_62");
    assert!(c22_63(), "c22_63");
    assert!(s22_63("a\u{a}b\u{d}\u{a}c", "b:"), "s22_63");
    assert!(c22_64(), "c22_64");
    assert!(s22_64("a\u{a}b\u{d}\u{a}c", "zz"), "s22_64");
    assert!(c22_65(), "c22_65");
    assert!(s22_65("\u{65e5}\u{672c}", "a"), "s22_65");
    assert!(c22_66(), "c22_66");
    assert!(s22_66("\u{65e5}\u{672c}", ":"), "s22_66");
    assert!(c22_67(), "c22_67");
    assert!(s22_67("\u{65e5}\u{672c}", "x"), "s22_67");
    assert!(c22_68(), "c22_68");
    assert!(s22_68("\u{65e5}\u{672c}", "b:"), "s22_68");
    assert!(c22_69(), "c22_69");
    assert!(s22_69("\u{65e5}\u{672c}", "zz"), "s22_69");
    assert!(c22_70(), "c22_70");
    assert!(s22_70("\u{1f600}z", "a"), "s22_70");
    assert!(c22_71(), "c22_71");
    assert!(s22_71("\u{1f600}z", ":"), "s22_71");
    assert!(c22_72(), "c22_72");
    assert!(s22_72("\u{1f600}z", "x"), "s22_72");
    assert!(c22_73(), "c22_73");
    assert!(s22_73("\u{1f600}z", "b:"), "s22_73");
    assert!(c22_74(), "c22_74");
    assert!(s22_74("\u{1f600}z", "zz"), "s22_74");
    assert!(c22_75(), "c22_75");
    assert!(s22_75("xx", "a"), "s22_75");
    assert!(c22_76(), "c22_76");
    assert!(s22_76("xx", ":"), "s22_76");
    assert!(c22_77(), "c22_77");
    assert!(s22_77("xx", "x"), "s22_77");
    assert!(c22_78(), "c22_78");
    assert!(s22_78("xx", "b:"), "s22_78");
    assert!(c22_79(), "c22_79");
    assert!(s22_79("xx", "zz"), "s22_79");
    assert!(c23_0(), "c23_0");
    assert!(s23_0("", "a"), "s23_0");
    assert!(c23_1(), "c23_1");
    assert!(s23_1("", ":"), "s23_1");
    assert!(c23_2(), "c23_2");
    assert!(s23_2("", "x"), "s23_2");
    assert!(c23_3(), "c23_3");
    assert!(s23_3("", "b:"), "s23_3");
    assert!(c23_4(), "c23_4");
    assert!(s23_4("", "zz"), "s23_4");
    assert!(c23_5(), "c23_5");
    assert!(s23_5("a", "a"), "s23_5");
    assert!(c23_6(), "c23_6");
    assert!(s23_6("a", ":"), "s23_6");
    assert!(c23_7(), "c23_7");
    assert!(s23_7("a", "x"), "s23_7");
    assert!(c23_8(), "c23_8");
    assert!(s23_8("a", "b:"), "s23_8");
    assert!(c23_9(), "c23_9");
    assert!(s23_9("a", "zz"), "s23_9");
    assert!(c23_10(), "c23_10");
    assert!(s23_10("abc", "a"), "s23_10");
    assert!(c23_11(), "c23_11");
    assert!(s23_11("abc", ":"), "s23_11");
    assert!(c23_12(), "c23_12");
    assert!(s23_12("abc", "x"), "s23_12");
    assert!(c23_13(), "c23_13");
    assert!(s23_13("abc", "b:"), "s23_13");
    assert!(c23_14(), "c23_14");
    assert!(s23_14("abc", "zz"), "s23_14");
    assert!(c23_15(), "c23_15");
    assert!(s23_15("%a1", "a"), "s23_15");
    assert!(c23_16(), "c23_16");
    assert!(s23_16("%a1", ":"), "s23_16");
    assert!(c23_17(), "c23_17");
    assert!(s23_17("%a1", "x"), "s23_17");
    assert!(c23_18(), "c23_18");
    assert!(s23_18("%a1", "b:"), "s23_18");
    assert!(c23_19(), "c23_19");
    assert!(s23_19("%a1", "zz"), "s23_19");
    assert!(c23_20(), "c23_20");
    assert!(s23_20("\u{e9}%x", "a"), "s23_20");
    assert!(c23_21(), "c23_21");
    assert!(s23_21("\u{e9}%x", ":"), "s23_21");
    assert!(c23_22(), "c23_22");
    assert!(s23_22("\u{e9}%x", "x"), "s23_22");
    assert!(c23_23(), "c23_23");
    assert!(s23_23("\u{e9}%x", "b:"), "s23_23");
    assert!(c23_24(), "c23_24");
    assert!(s23_24("\u{e9}%x", "zz"), "s23_24");
    assert!(c23_25(), "c23_25");
    assert!(s23_25("a:b:c", "a"), "s23_25");
    assert!(c23_26(), "c23_26");
    assert!(s23_26("a:b:c", ":"), "s23_26");
    assert!(c23_27(), "c23_27");
    assert!(s23_27("a:b:c", "x"), "s23_27");
    assert!(c23_28(), "c23_28");
    assert!(s23_28("a:b:c", "b:"), "s23_28");
    assert!(c23_29(), "c23_29");
    assert!(s23_29("a:b:c", "zz"), "s23_29");
    assert!(c23_30(), "c23_30");
    assert!(s23_30("::", "a"), "s23_30");
    assert!(c23_31(), "c23_31");
    assert!(s23_31("::", ":"), "s23_31");
    assert!(c23_32(), "c23_32");
    assert!(s23_32("::", "x"), "s23_32");
    assert!(c23_33(), "c23_33");
    assert!(s23_33("::", "b:"), "s23_33");
    assert!(c23_34(), "c23_34");
    assert!(s23_34("::", "zz"), "s23_34");
    assert!(c23_35(), "c23_35");
    assert!(s23_35("  x ", "a"), "s23_35");
    assert!(c23_36(), "c23_36");
    assert!(s23_36("  x ", ":"), "s23_36");
    assert!(c23_37(), "c23_37");
    assert!(s23_37("  x ", "x"), "s23_37");
    assert!(c23_38(), "c23_38");
    assert!(s23_38("  x ", "b:"), "s23_38");
    assert!(c23_39(), "c23_39");
    assert!(s23_39("  x ", "zz"), "s23_39");
    assert!(c23_40(), "c23_40");
    assert!(s23_40("12", "a"), "s23_40");
    assert!(c23_41(), "c23_41");
    assert!(s23_41("12", ":"), "s23_41");
    assert!(c23_42(), "c23_42");
    assert!(s23_42("12", "x"), "s23_42");
    assert!(c23_43(), "c23_43");
    assert!(s23_43("12", "b:"), "s23_43");
    assert!(c23_44(), "c23_44");
    assert!(s23_44("12", "zz"), "s23_44");
    assert!(c23_45(), "c23_45");
    assert!(s23_45("-5", "a"), "s23_45");
    assert!(c23_46(), "c23_46");
    assert!(s23_46("-5", ":"), "s23_46");
    assert!(c23_47(), "c23_47");
    assert!(s23_47("-5", "x"), "s23_47");
    assert!(c23_48(), "c23_48");
    assert!(s23_48("-5", "b:"), "s23_48");
    assert!(c23_49(), "c23_49");
    assert!(s23_49("-5", "zz"), "s23_49");
    assert!(c23_50(), "c23_50");
    assert!(s23_50("+7", "a"), "s23_50");
    assert!(c23_51(), "c23_51");
    assert!(s23_51("+7", ":"), "s23_51");
    assert!(c23_52(), "c23_52");
    assert!(s23_52("+7", "x"), "s23_52");
    assert!(c23_53(), "c23_53");
    assert!(s23_53("+7", "b:"), "s23_53");
    assert!(c23_54(), "c23_54");
    assert!(s23_54("+7", "zz"), "s23_54");
    assert!(c23_55(), "c23_55");
    assert!(s23_55("99999999999999999999", "a"), "s23_55");
    assert!(c23_56(), "c23_56");
    assert!(s23_56("99999999999999999999", ":"), "s23_56");
    assert!(c23_57(), "c23_57");
    assert!(s23_57("99999999999999999999", "x"), "s23_57");
    assert!(c23_58(), "c23_58");
    assert!(s23_58("99999999999999999999", "b:"), "s23_58");
    assert!(c23_59(), "c23_59");
    assert!(s23_59("99999999999999999999", "zz"), "s23_59");
    assert!(c23_60(), "c23_60");
    assert!(s23_60("a\u{a}b\u{d}\u{a}c", "a"), "s23_60");
    assert!(c23_61(), "c23_61");
    assert!(s23_61("a\u{a}b\u{d}\u{a}c", ":"), "s23_61");
    assert!(c23_62(), "c23_62");
    assert!(s23_62("a\u{a}b\u{d}\u{a}c", "x"), "s23_62");
    assert!(c23_63(), "c23_63");
    assert!(s23_63("a\u{a}b\u{d}\u{a}c", "b:"), "s23_63");
    assert!(c23_64(), "c23_64");
    assert!(s23_64("a\u{a}b\u{d}\u{a}c", "zz"), "s23_64");
    assert!(c23_65(), "c23_65");
    assert!(s23_65("\u{65e5}\u{672c}", "a"), "s23_65");
    assert!(c23_66(), "c23_66");
    assert!(s23_66("\u{65e5}\u{672c}", ":"), "s23_66");
    assert!(c23_67(), "c23_67");
    assert!(s23_67("\u{65e5}\u{672c}", "x"), "s23_67");
    assert!(c23_68(), "c23_68");
    assert!(s23_68("\u{65e5}\u{672c}", "b:"), "s23_68");
    assert!(c23_69(), "c23_69");
    assert!(s23_69("\u{65e5}\u{672c}", "zz"), "s23_69");
    assert!(c23_70(), "c23_70");
    assert!(s23_70("\u{1f600}z", "a"), "s23_70");
    assert!(c23_71(), "c23_71");
    assert!(s23_71("\u{1f600}z", ":"), "s23_71");
    assert!(c23_72(), "c23_72");
    assert!(s23_72("\u{1f600}z", "x"), "s23_72");
    assert!(c23_73(), "c23_73");
    assert!(s23_73("\u{1f600}z", "b:"), "s23_73");
    assert!(c23_74(), "c23_74");
    assert!(s23_74("\u{1f600}z", "zz"), "s23_74");
    assert!(c23_75(), "c23_75");
    assert!(s23_75("xx", "a"), "s23_75");
    assert!(c23_76(), "c23_76");
    assert!(s23_76("xx", ":"), "s23_76");
    assert!(c23_77(), "c23_77");
    assert!(s23_77("xx", "x"), "s23_77");
    assert!(c23_78(), "c23_78");
    assert!(s23_78("xx", "b:"), "s23_78");
    assert!(c23_79(), "c23_79");
    assert!(s23_79("xx", "zz"), "s23_79");
    assert!(c24_0(), "c24_0");
    assert!(s24_0("", "a"), "s24_0");
    assert!(c24_1(), "c24_1");
    assert!(s24_1("", ":"), "s24_1");
    assert!(c24_2(), "c24_2");
    assert!(s24_2("", "x"), "s24_2");
    assert!(c24_3(), "c24_3");
    assert!(s24_3("", "b:"), "s24_3");
    assert!(c24_4(), "c24_4");
    assert!(s24_4("", "zz"), "s24_4");
    assert!(c24_5(), "c24_5");
    assert!(s24_5("a", "a"), "s24_5");
    assert!(c24_6(), "c24_6");
    assert!(s24_6("a", ":"), "s24_6");
    assert!(c24_7(), "c24_7");
    assert!(s24_7("a", "x"), "s24_7");
    assert!(c24_8(), "c24_8");
    assert!(s24_8("a", "b:"), "s24_8");
    assert!(c24_9(), "c24_9");
    assert!(s24_9("a", "zz"), "s24_9");
    assert!(c24_10(), "c24_10");
    assert!(s24_10("abc", "a"), "s24_10");
    assert!(c24_11(), "c24_11");
    assert!(s24_11("abc", ":"), "s24_11");
    assert!(c24_12(), "c24_12");
    assert!(s24_12("abc", "x"), "s24_12");
    assert!(c24_13(), "c24_13");
    assert!(s24_13("abc", "b:"), "s24_13");
    assert!(c24_14(), "c24_14");
    assert!(s24_14("abc", "zz"), "s24_14");
    assert!(c24_15(), "c24_15");
    assert!(s24_15("%a1", "a"), "s24_15");
    assert!(c24_16(), "c24_16");
    assert!(s24_16("%a1", ":"), "s24_16");
    assert!(c24_17(), "c24_17");
    assert!(s24_17("%a1", "x"), "s24_17");
    assert!(c24_18(), "c24_18");
    assert!(s24_18("%a1", "b:"), "s24_18");
    assert!(c24_19(), "c24_19");
    assert!(s24_19("%a1", "zz"), "s24_19");
    assert!(c24_20(), "c24_20");
    assert!(s24_20("\u{e9}%x", "a"), "s24_20");
    assert!(c24_21(), "c24_21");
    assert!(s24_21("\u{e9}%x", ":"), "s24_21");
    assert!(c24_22(), "c24_22");
    assert!(s24_22("\u{e9}%x", "x"), "s24_22");
    assert!(c24_23(), "c24_23");
    assert!(s24_23("\u{e9}%x", "b:"), "s24_23");
    assert!(c24_24(), "c24_24");
    assert!(s24_24("\u{e9}%x", "zz"), "s24_24");
    assert!(c24_25(), "c24_25");
    assert!(s24_25("a:b:c", "a"), "s24_25");
    assert!(c24_26(), "c24_26");
    assert!(s24_26("a:b:c", ":"), "s24_26");
    assert!(c24_27(), "c24_27");
    assert!(s24_27("a:b:c", "x"), "s24_27");
    assert!(c24_28(), "c24_28");
    assert!(s24_28("a:b:c", "b:"), "s24_28");
    assert!(c24_29(), "c24_29");
    assert!(s24_29("a:b:c", "zz"), "s24_29");
    assert!(c24_30(), "c24_30");
    assert!(s24_30("::", "a"), "s24_30");
    assert!(c24_31(), "c24_31");
    assert!(s24_31("::", ":"), "s24_31");
    assert!(c24_32(), "c24_32");
    assert!(s24_32("::", "x"), "s24_32");
    assert!(c24_33(), "c24_33");
    assert!(s24_33("::", "b:"), "s24_33");
    assert!(c24_34(), "c24_34");
    assert!(s24_34("::", "zz"), "s24_34");
    assert!(c24_35(), "c24_35");
    assert!(s24_35("  x ", "a"), "s24_35");
    assert!(c24_36(), "c24_36");
    assert!(s24_36("  x ", ":"), "s24_36");
    assert!(c24_37(), "c24_37");
    assert!(s24_37("  x ", "x"), "s24_37");
    assert!(c24_38(), "c24_38");
    assert!(s24_38("  x ", "b:"), "s24_38");
    assert!(c24_39(), "c24_39");
    assert!(s24_39("  x ", "zz"), "s24_39");
    assert!(c24_40(), "c24_40");
    assert!(s24_40("12", "a"), "s24_40");
    assert!(c24_41(), "c24_41");
    assert!(s24_41("12", ":"), "s24_41");
    assert!(c24_42(), "c24_42");
    assert!(s24_42("12", "x"), "s24_42");
    assert!(c24_43(), "c24_43");
    assert!(s24_43("12", "b:"), "s24_43");
    assert!(c24_44(), "c24_44");
    assert!(s24_44("12", "zz"), "s24_44");
    assert!(c24_45(), "c24_45");
    assert!(s24_45("-5", "a"), "s24_45");
    assert!(c24_46(), "c24_46");
    assert!(s24_46("-5", ":"), "s24_46");
    assert!(c24_47(), "c24_47");
    assert!(s24_47("-5", "x"), "s24_47");
    assert!(c24_48(), "c24_48");
    assert!(s24_48("-5", "b:"), "s24_48");
    assert!(c24_49(), "c24_49");
    assert!(s24_49("-5", "zz"), "s24_49");
    assert!(c24_50(), "c24_50");
    assert!(s24_50("+7", "a"), "s24_50");
    assert!(c24_51(), "c24_51");
    assert!(s24_51("+7", ":"), "s24_51");
    assert!(c24_52(), "c24_52");
    assert!(s24_52("+7", "x"), "s24_52");
    assert!(c24_53(), "c24_53");
    assert!(s24_53("+7", "b:"), "s24_53");
    assert!(c24_54(), "c24_54");
    assert!(s24_54("+7", "zz"), "s24_54");
    assert!(c24_55(), "c24_55");
    assert!(s24_55("99999999999999999999", "a"), "s24_55");
    assert!(c24_56(), "c24_56");
    assert!(s24_56("99999999999999999999", ":"), "s24_56");
    assert!(c24_57(), "c24_57");
    assert!(s24_57("99999999999999999999", "x"), "s24_57");
    assert!(c24_58(), "c24_58");
    assert!(s24_58("99999999999999999999", "b:"), "s24_58");
    assert!(c24_59(), "c24_59");
    assert!(s24_59("99999999999999999999", "zz"), "s24_59");
    assert!(c24_60(), "c24_60");
    assert!(s24_60("a\u{a}b\u{d}\u{a}c", "a"), "s24_60");
    assert!(c24_61(), "c24_61");
    assert!(s24_61("a\u{a}b\u{d}\u{a}c", ":"), "s24_61");
    assert!(c24_62(), "c24_62");
    assert!(s24_62("a\u{a}b\u{d}\u{a}c", "x"), "s24_62");
    assert!(c24_63(), "c24_63");
    assert!(s24_63("a\u{a}b\u{d}\u{a}c", "b:"), "s24_63");
    assert!(c24_64(), "c24_64");
    assert!(s24_64("a\u{a}b\u{d}\u{a}c", "zz"), "s24_64");
    assert!(c24_65(), "c24_65");
    assert!(s24_65("\u{65e5}\u{672c}", "a"), "s24_65");
    assert!(c24_66(), "c24_66");
    assert!(s24_66("\u{65e5}\u{672c}", ":"), "s24_66");
    assert!(c24_67(), "c24_67");
    assert!(s24_67("\u{65e5}\u{672c}", "x"), "s24_67");
    assert!(c24_68(), "c24_68");
    assert!(s24_68("\u{65e5}\u{672c}", "b:"), "s24_68");
    assert!(c24_69(), "c24_69");
    assert!(s24_69("\u{65e5}\u{672c}", "zz"), "s24_69");
    assert!(c24_70(), "c24_70");
    assert!(s24_70("\u{1f600}z", "a"), "s24_70");
    assert!(c24_71(), "c24_71");
    assert!(s24_71("\u{1f600}z", ":"), "s24_71");
    assert!(c24_72(), "c24_72");
    assert!(s24_72("\u{1f600}z", "x"), "s24_72");
    assert!(c24_73(), "c24_73");
    assert!(s24_73("\u{1f600}z", "b:"), "s24_73");
    assert!(c24_74(), "c24_74");
    assert!(s24_74("\u{1f600}z", "zz"), "s24_74");
    assert!(c24_75(), "c24_75");
    assert!(s24_75("xx", "a"), "s24_75");
    assert!(c24_76(), "c24_76");
    assert!(s24_76("xx", ":"), "s24_76");
    assert!(c24_77(), "c24_77");
    assert!(s24_77("xx", "x"), "s24_77");
    assert!(c24_78(), "c24_78");
    assert!(s24_78("xx", "b:"), "s24_78");
    assert!(c24_79(), "c24_79");
    assert!(s24_79("xx", "zz"), "s24_79");
    assert!(c25_0(), "c25_0");
    assert!(s25_0("", "a"), "s25_0");
    assert!(c25_1(), "c25_1");
    assert!(s25_1("", ":"), "s25_1");
    assert!(c25_2(), "c25_2");
    assert!(s25_2("", "x"), "s25_2");
    assert!(c25_3(), "c25_3");
    assert!(s25_3("", "b:"), "s25_3");
    assert!(c25_4(), "c25_4");
    assert!(s25_4("", "zz"), "s25_4");
    assert!(c25_5(), "c25_5");
    assert!(s25_5("a", "a"), "s25_5");
    assert!(c25_6(), "c25_6");
    assert!(s25_6("a", ":"), "s25_6");
    assert!(c25_7(), "c25_7");
    assert!(s25_7("a", "x"), "s25_7");
    assert!(c25_8(), "c25_8");
    assert!(s25_8("a", "b:"), "s25_8");
    assert!(c25_9(), "c25_9");
    assert!(s25_9("a", "zz"), "s25_9");
    assert!(c25_10(), "c25_10");
    assert!(s25_10("abc", "a"), "s25_10");
    assert!(c25_11(), "c25_11");
    assert!(s25_11("abc", ":"), "s25_11");
    assert!(c25_12(), "c25_12");
    assert!(s25_12("abc", "x"), "s25_12");
    assert!(c25_13(), "c25_13");
    assert!(s25_13("abc", "b:"), "s25_13");
    assert!(c25_14(), "c25_14");
    assert!(s25_14("abc", "zz"), "s25_14");
    assert!(c25_15(), "c25_15");
    assert!(s25_15("%a1", "a"), "s25_15");
    assert!(c25_16(), "c25_16");
    assert!(s25_16("%a1", ":"), "s25_16");
    assert!(c25_17(), "c25_17");
    assert!(s25_17("%a1", "x"), "s25_17");
    assert!(c25_18(), "c25_18");
    assert!(s25_18("%a1", "b:"), "s25_18");
    assert!(c25_19(), "c25_19");
    assert!(s25_19("%a1", "zz"), "s25_19");
    assert!(c25_20(), "c25_20");
    assert!(s25_20("\u{e9}%x", "a"), "s25_20");
    assert!(c25_21(), "c25_21");
    assert!(s25_21("\u{e9}%x", ":"), "s25_21");
    assert!(c25_22(), "c25_22");
    assert!(s25_22("\u{e9}%x", "x"), "s25_22");
    assert!(c25_23(), "c25_23");
    assert!(s25_23("\u{e9}%x", "b:"), "s25_23");
    assert!(c25_24(), "c25_24");
    assert!(s25_24("\u{e9}%x", "zz"), "s25_24");
    assert!(c25_25(), "c25_25");
    assert!(s25_25("a:b:c", "a"), "s25_25");
    assert!(c25_26(), "c25_26");
    assert!(s25_26("a:b:c", ":"), "s25_26");
    assert!(c25_27(), "c25_27");
    assert!(s25_27("a:b:c", "x"), "s25_27");
    assert!(c25_28(), "c25_28");
    assert!(s25_28("a:b:c", "b:"), "s25_28");
    assert!(c25_29(), "c25_29");
    assert!(s25_29("a:b:c", "zz"), "s25_29");
    assert!(c25_30(), "c25_30");
    assert!(s25_30("::", "a"), "s25_30");
    assert!(c25_31(), "c25_31");
    assert!(s25_31("::", ":"), "s25_31");
    assert!(c25_32(), "c25_32");
    assert!(s25_32("::", "x"), "s25_32");
    assert!(c25_33(), "c25_33");
    assert!(s25_33("::", "b:"), "s25_33");
    assert!(c25_34(), "c25_34");
    assert!(s25_34("::", "zz"), "s25_34");
    assert!(c25_35(), "c25_35");
    assert!(s25_35("  x ", "a"), "s25_35");
    assert!(c25_36(), "c25_36");
    assert!(s25_36("  x ", ":"), "s25_36");
    assert!(c25_37(), "c25_37");
    assert!(s25_37("  x ", "x"), "s25_37");
    assert!(c25_38(), "c25_38");
    assert!(s25_38("  x ", "b:"), "s25_38");
    assert!(c25_39(), "c25_39");
    assert!(s25_39("  x ", "zz"), "s25_39");
    assert!(c25_40(), "c25_40");
    assert!(s25_40("12", "a"), "s25_40");
    assert!(c25_41(), "c25_41");
    assert!(s25_41("12", ":"), "s25_41");
    assert!(c25_42(), "c25_42");
    assert!(s25_42("12", "x"), "s25_42");
    assert!(c25_43(), "c25_43");
    assert!(s25_43("12", "b:"), "s25_43");
    assert!(c25_44(), "c25_44");
    assert!(s25_44("12", "zz"), "s25_44");
    assert!(c25_45(), "c25_45");
    assert!(s25_45("-5", "a"), "s25_45");
    assert!(c25_46(), "c25_46");
    assert!(s25_46("-5", ":"), "s25_46");
    assert!(c25_47(), "c25_47");
    assert!(s25_47("-5", "x"), "s25_47");
    assert!(c25_48(), "c25_48");
    assert!(s25_48("-5", "b:"), "s25_48");
    assert!(c25_49(), "c25_49");
    assert!(s25_49("-5", "zz"), "s25_49");
    assert!(c25_50(), "c25_50");
    assert!(s25_50("+7", "a"), "s25_50");
    assert!(c25_51(), "c25_51");
    assert!(s25_51("+7", ":"), "s25_51");
    assert!(c25_52(), "c25_52");
    assert!(s25_52("+7", "x"), "s25_52");
    assert!(c25_53(), "c25_53");
    assert!(s25_53("+7", "b:"), "s25_53");
    assert!(c25_54(), "c25_54");
    assert!(s25_54("+7", "zz"), "s25_54");
    assert!(c25_55(), "c25_55");
    assert!(s25_55("99999999999999999999", "a"), "s25_55");
    assert!(c25_56(), "c25_56");
    assert!(s25_56("99999999999999999999", ":"), "s25_56");
    assert!(c25_57(), "c25_57");
    assert!(s25_57("99999999999999999999", "x"), "s25_57");
    assert!(c25_58(), "c25_58");
    assert!(s25_58("99999999999999999999", "b:"), "s25_58");
    assert!(c25_59(), "c25_59");
    assert!(s25_59("99999999999999999999", "zz"), "s25_59");
    assert!(c25_60(), "c25_60");
    assert!(s25_60("a\u{a}b\u{d}\u{a}c", "a"), "s25_60");
    assert!(c25_61(), "c25_61");
    assert!(s25_61("a\u{a}b\u{d}\u{a}c", ":"), "s25_61");
    assert!(c25_62(), "c25_62");
    assert!(s25_62("a\u{a}b\u{d}\u{a}c", "x"), "s25_62");
    assert!(c25_63(), "c25_63");
    assert!(s25_63("a\u{a}b\u{d}\u{a}c", "b:"), "s25_63");
    assert!(c25_64(), "c25_64");
    assert!(s25_64("a\u{a}b\u{d}\u{a}c", "zz"), "s25_64");
    assert!(c25_65(), "c25_65");
    assert!(s25_65("\u{65e5}\u{672c}", "a"), "s25_65");
    assert!(c25_66(), "c25_66");
    assert!(s25_66("\u{65e5}\u{672c}", ":"), "s25_66");
    assert!(c25_67(), "c25_67");
    assert!(s25_67("\u{65e5}\u{672c}", "x"), "s25_67");
    assert!(c25_68(), "c25_68");
    assert!(s25_68("\u{65e5}\u{672c}", "b:"), "s25_68");
    assert!(c25_69(), "c25_69");
    assert!(s25_69("\u{65e5}\u{672c}", "zz"), "s25_69");
    assert!(c25_70(), "c25_70");
    assert!(s25_70("\u{1f600}z", "a"), "s25_70");
    assert!(c25_71(), "c25_71");
    assert!(s25_71("\u{1f600}z", ":"), "s25_71");
    assert!(c25_72(), "c25_72");
    assert!(s25_72("\u{1f600}z", "x"), "s25_72");
    assert!(c25_73(), "c25_73");
    assert!(s25_73("\u{1f600}z", "b:"), "s25_73");
    assert!(c25_74(), "c25_74");
    assert!(s25_74("\u{1f600}z", "zz"), "s25_74");
    assert!(c25_75(), "c25_75");
    assert!(s25_75("xx", "a"), "s25_75");
    assert!(c25_76(), "c25_76");
    assert!(s25_76("xx", ":"), "s25_76");
    assert!(c25_77(), "c25_77");
    assert!(s25_77("xx", "x"), "s25_77");
    assert!(c25_78(), "c25_78");
    assert!(s25_78("xx", "b:"), "s25_78");
    assert!(c25_79(), "c25_79");
    assert!(s25_79("xx", "zz"), "s25_79");
    assert!(c26_0(), "c26_0");
    assert!(s26_0(""), "s26_0");
    assert!(c26_1(), "c26_1");
    assert!(s26_1("a"), "s26_1");
    assert!(c26_2(), "c26_2");
    assert!(s26_2("abc"), "s26_2");
    assert!(c26_3(), "c26_3");
    assert!(s26_3("%a1"), "s26_3");
    assert!(c26_4(), "c26_4");
    assert!(s26_4("\u{e9}%x"), "s26_4");
    assert!(c26_5(), "c26_5");
    assert!(s26_5("a:b:c"), "s26_5");
    assert!(c26_6(), "c26_6");
    assert!(s26_6("::"), "s26_6");
    assert!(c26_7(), "c26_7");
    assert!(s26_7("  x "), "s26_7");
    assert!(c26_8(), "c26_8");
    assert!(s26_8("12"), "s26_8");
    assert!(c26_9(), "c26_9");
    assert!(s26_9("-5"), "s26_9");
    assert!(c26_10(), "c26_10");
    assert!(s26_10("+7"), "s26_10");
    assert!(c26_11(), "c26_11");
    assert!(s26_11("99999999999999999999"), "s26_11");
    assert!(c26_12(), "c26_12");
    assert!(s26_12("a\u{a}b\u{d}\u{a}c"), "s26_12");
    assert!(c26_13(), "c26_13");
    assert!(s26_13("\u{65e5}\u{672c}"), "s26_13");
    assert!(c26_14(), "c26_14");
    assert!(s26_14("\u{1f600}z"), "s26_14");
    assert!(c26_15(), "c26_15");
    assert!(s26_15("xx"), "s26_15");
    assert!(c27_0(), "c27_0");
    assert!(s27_0(""), "s27_0");
    assert!(c27_1(), "c27_1");
    assert!(s27_1("a"), "s27_1");
    assert!(c27_2(), "c27_2");
    assert!(s27_2("abc"), "s27_2");
    assert!(c27_3(), "c27_3");
    assert!(s27_3("%a1"), "s27_3");
    assert!(c27_4(), "c27_4");
    assert!(s27_4("\u{e9}%x"), "s27_4");
    assert!(c27_5(), "c27_5");
    assert!(s27_5("a:b:c"), "s27_5");
    assert!(c27_6(), "c27_6");
    assert!(s27_6("::"), "s27_6");
    assert!(c27_7(), "c27_7");
    assert!(s27_7("  x "), "s27_7");
    assert!(c27_8(), "c27_8");
    assert!(s27_8("12"), "s27_8");
    assert!(c27_9(), "c27_9");
    assert!(s27_9("-5"), "s27_9");
    assert!(c27_10(), "c27_10");
    assert!(s27_10("+7"), "s27_10");
    assert!(c27_11(), "c27_11");
    assert!(s27_11("99999999999999999999"), "s27_11");
    assert!(c27_12(), "c27_12");
    assert!(s27_12("a\u{a}b\u{d}\u{a}c"), "s27_12");
    assert!(c27_13(), "c27_13");
    assert!(s27_13("\u{65e5}\u{672c}"), "s27_13");
    assert!(c27_14(), "c27_14");
    assert!(s27_14("\u{1f600}z"), "s27_14");
    assert!(c27_15(), "c27_15");
    assert!(s27_15("xx"), "s27_15");
    assert!(c28_0(), "c28_0");
    assert!(s28_0(""), "s28_0");
    assert!(c28_1(), "c28_1");
    assert!(s28_1("a"), "s28_1");
    assert!(c28_2(), "c28_2");
    assert!(s28_2("abc"), "s28_2");
    assert!(c28_3(), "c28_3");
    assert!(s28_3("%a1"), "s28_3");
    assert!(c28_4(), "c28_4");
    assert!(s28_4("\u{e9}%x"), "s28_4");
    assert!(c28_5(), "c28_5");
    assert!(s28_5("a:b:c"), "s28_5");
    assert!(c28_6(), "c28_6");
    assert!(s28_6("::"), "s28_6");
    assert!(c28_7(), "c28_7");
    assert!(s28_7("  x "), "s28_7");
    assert!(c28_8(), "c28_8");
    assert!(s28_8("12"), "s28_8");
    assert!(c28_9(), "c28_9");
    assert!(s28_9("-5"), "s28_9");
    assert!(c28_10(), "c28_10");
    assert!(s28_10("+7"), "s28_10");
    assert!(c28_11(), "c28_11");
    assert!(s28_11("99999999999999999999"), "s28_11");
    assert!(c28_12(), "c28_12");
    assert!(s28_12("a\u{a}b\u{d}\u{a}c"), "s28_12");
    assert!(c28_13(), "c28_13");
    assert!(s28_13("\u{65e5}\u{672c}"), "s28_13");
    assert!(c28_14(), "c28_14");
    assert!(s28_14("\u{1f600}z"), "s28_14");
    assert!(c28_15(), "c28_15");
    assert!(s28_15("xx"), "s28_15");
    assert!(c29_0(), "c29_0");
    assert!(s29_0("", "a"), "s29_0");
    assert!(c29_1(), "c29_1");
    assert!(s29_1("", ":"), "s29_1");
    assert!(c29_2(), "c29_2");
    assert!(s29_2("", "x"), "s29_2");
    assert!(c29_3(), "c29_3");
    assert!(s29_3("", "b:"), "s29_3");
    assert!(c29_4(), "c29_4");
    assert!(s29_4("", "zz"), "s29_4");
    assert!(c29_5(), "c29_5");
    assert!(s29_5("a", "a"), "s29_5");
    assert!(c29_6(), "c29_6");
    assert!(s29_6("a", ":"), "s29_6");
    assert!(c29_7(), "c29_7");
    assert!(s29_7("a", "x"), "s29_7");
    assert!(c29_8(), "c29_8");
    assert!(s29_8("a", "b:"), "s29_8");
    assert!(c29_9(), "c29_9");
    assert!(s29_9("a", "zz"), "s29_9");
    assert!(c29_10(), "c29_10");
    assert!(s29_10("abc", "a"), "s29_10");
    assert!(c29_11(), "c29_11");
    assert!(s29_11("abc", ":"), "s29_11");
    assert!(c29_12(), "c29_12");
    assert!(s29_12("abc", "x"), "s29_12");
    assert!(c29_13(), "c29_13");
    assert!(s29_13("abc", "b:"), "s29_13");
    assert!(c29_14(), "c29_14");
    assert!(s29_14("abc", "zz"), "s29_14");
    assert!(c29_15(), "c29_15");
    assert!(s29_15("%a1", "a"), "s29_15");
    assert!(c29_16(), "c29_16");
    assert!(s29_16("%a1", ":"), "s29_16");
    assert!(c29_17(), "c29_17");
    assert!(s29_17("%a1", "x"), "s29_17");
    assert!(c29_18(), "c29_18");
    assert!(s29_18("%a1", "b:"), "s29_18");
    assert!(c29_19(), "c29_19");
    assert!(s29_19("%a1", "zz"), "s29_19");
    assert!(c29_20(), "c29_20");
    assert!(s29_20("\u{e9}%x", "a"), "s29_20");
    assert!(c29_21(), "c29_21");
    assert!(s29_21("\u{e9}%x", ":"), "s29_21");
    assert!(c29_22(), "c29_22");
    assert!(s29_22("\u{e9}%x", "x"), "s29_22");
    assert!(c29_23(), "c29_23");
    assert!(s29_23("\u{e9}%x", "b:"), "s29_23");
    assert!(c29_24(), "c29_24");
    assert!(s29_24("\u{e9}%x", "zz"), "s29_24");
    assert!(c29_25(), "c29_25");
    assert!(s29_25("a:b:c", "a"), "s29_25");
    assert!(c29_26(), "c29_26");
    assert!(s29_26("a:b:c", ":"), "s29_26");
    assert!(c29_27(), "c29_27");
    assert!(s29_27("a:b:c", "x"), "s29_27");
    assert!(c29_28(), "c29_28");
    assert!(s29_28("a:b:c", "b:"), "s29_28");
    assert!(c29_29(), "c29_29");
    assert!(s29_29("a:b:c", "zz"), "s29_29");
    assert!(c29_30(), "c29_30");
    assert!(s29_30("::", "a"), "s29_30");
    assert!(c29_31(), "c29_31");
    assert!(s29_31("::", ":"), "s29_31");
    assert!(c29_32(), "c29_32");
    assert!(s29_32("::", "x"), "s29_32");
    assert!(c29_33(), "c29_33");
    assert!(s29_33("::", "b:"), "s29_33");
    assert!(c29_34(), "c29_34");
    assert!(s29_34("::", "zz"), "s29_34");
    assert!(c29_35(), "c29_35");
    assert!(s29_35("  x ", "a"), "s29_35");
    assert!(c29_36(), "c29_36");
    assert!(s29_36("  x ", ":"), "s29_36");
    assert!(c29_37(), "c29_37");
    assert!(s29_37("  x ", "x"), "s29_37");
    assert!(c29_38(), "c29_38");
    assert!(s29_38("  x ", "b:"), "s29_38");
    assert!(c29_39(), "c29_39");
    assert!(s29_39("  x ", "zz"), "s29_39");
    assert!(c29_40(), "c29_40");
    assert!(s29_40("12", "a"), "s29_40");
    assert!(c29_41(), "c29_41");
    assert!(s29_41("12", ":"), "s29_41");
    assert!(c29_42(), "c29_42");
    assert!(s29_42("12", "x"), "s29_42");
    assert!(c29_43(), "c29_43");
    assert!(s29_43("12", "b:"), "s29_43");
    assert!(c29_44(), "c29_44");
    assert!(s29_44("12", "zz"), "s29_44");
    assert!(c29_45(), "c29_45");
    assert!(s29_45("-5", "a"), "s29_45");
    assert!(c29_46(), "c29_46");
    assert!(s29_46("-5", ":"), "s29_46");
    assert!(c29_47(), "c29_47");
    assert!(s29_47("-5", "x"), "s29_47");
    assert!(c29_48(), "c29_48");
    assert!(s29_48("-5", "b:"), "s29_48");
    assert!(c29_49(), "c29_49");
    assert!(s29_49("-5", "zz"), "s29_49");
    assert!(c29_50(), "c29_50");
    assert!(s29_50("+7", "a"), "s29_50");
    assert!(c29_51(), "c29_51");
    assert!(s29_51("+7", ":"), "s29_51");
    assert!(c29_52(), "c29_52");
    assert!(s29_52("+7", "x"), "s29_52");
    assert!(c29_53(), "c29_53");
    assert!(s29_53("+7", "b:"), "s29_53");
    assert!(c29_54(), "c29_54");
    assert!(s29_54("+7", "zz"), "s29_54");
    assert!(c29_55(), "c29_55");
    assert!(s29_55("99999999999999999999", "a"), "s29_55");
    assert!(c29_56(), "c29_56");
    assert!(s29_56("99999999999999999999", ":"), "s29_56");
    assert!(c29_57(), "c29_57");
    assert!(s29_57("99999999999999999999", "x"), "s29_57");
    assert!(c29_58(), "c29_58");
    assert!(s29_58("99999999999999999999", "b:"), "s29_58");
    assert!(c29_59(), "c29_59");
    assert!(s29_59("99999999999999999999", "zz"), "s29_59");
    assert!(c29_60(), "c29_60");
    assert!(s29_60("a\u{a}b\u{d}\u{a}c", "a"), "s29_60");
    assert!(c29_61(), "c29_61");
    assert!(s29_61("a\u{a}b\u{d}\u{a}c", ":"), "s29_61");
    assert!(c29_62(), "c29_62");
    assert!(s29_62("a\u{a}b\u{d}\u{a}c", "x"), "s29_62");
    assert!(c29_63(), "c29_63");
    assert!(s29_63("a\u{a}b\u{d}\u{a}c", "b:"), "s29_63");
    assert!(c29_64(), "c29_64");
    assert!(s29_64("a\u{a}b\u{d}\u{a}c", "zz"), "s29_64");
    assert!(c29_65(), "c29_65");
    assert!(s29_65("\u{65e5}\u{672c}", "a"), "s29_65");
    assert!(c29_66(), "c29_66");
    assert!(s29_66("\u{65e5}\u{672c}", ":"), "s29_66");
    assert!(c29_67(), "c29_67");
    assert!(s29_67("\u{65e5}\u{672c}", "x"), "s29_67");
    assert!(c29_68(), "c29_68");
    assert!(s29_68("\u{65e5}\u{672c}", "b:"), "s29_68");
    assert!(c29_69(), "c29_69");
    assert!(s29_69("\u{65e5}\u{672c}", "zz"), "s29_69");
    assert!(c29_70(), "c29_70");
    assert!(s29_70("\u{1f600}z", "a"), "s29_70");
    assert!(c29_71(), "c29_71");
    assert!(s29_71("\u{1f600}z", ":"), "s29_71");
    assert!(c29_72(), "c29_72");
    assert!(s29_72("\u{1f600}z", "x"), "s29_72");
    assert!(c29_73(), "c29_73");
    assert!(s29_73("\u{1f600}z", "b:"), "s29_73");
    assert!(c29_74(), "c29_74");
    assert!(s29_74("\u{1f600}z", "zz"), "s29_74");
    assert!(c29_75(), "c29_75");
    assert!(s29_75("xx", "a"), "s29_75");
    assert!(c29_76(), "c29_76");
    assert!(s29_76("xx", ":"), "s29_76");
    assert!(c29_77(), "c29_77");
    assert!(s29_77("xx", "x"), "s29_77");
    assert!(c29_78(), "c29_78");
    assert!(s29_78("xx", "b:"), "s29_78");
    assert!(c29_79(), "c29_79");
    assert!(s29_79("xx", "zz"), "s29_79");
    assert!(c30_0(), "c30_0");
    assert!(s30_0("", "a"), "s30_0");
    assert!(c30_1(), "c30_1");
    assert!(s30_1("", ":"), "s30_1");
    assert!(c30_2(), "c30_2");
    assert!(s30_2("", "x"), "s30_2");
    assert!(c30_3(), "c30_3");
    assert!(s30_3("", "b:"), "s30_3");
    assert!(c30_4(), "c30_4");
    assert!(s30_4("", "zz"), "s30_4");
    assert!(c30_5(), "c30_5");
    assert!(s30_5("a", "a"), "s30_5");
    assert!(c30_6(), "c30_6");
    assert!(s30_6("a", ":"), "s30_6");
    assert!(c30_7(), "c30_7");
    assert!(s30_7("a", "x"), "s30_7");
    assert!(c30_8(), "c30_8");
    assert!(s30_8("a", "b:"), "s30_8");
    assert!(c30_9(), "c30_9");
    assert!(s30_9("a", "zz"), "s30_9");
    assert!(c30_10(), "c30_10");
    assert!(s30_10("abc", "a"), "s30_10");
    assert!(c30_11(), "c30_11");
    assert!(s30_11("abc", ":"), "s30_11");
    assert!(c30_12(), "c30_12");
    assert!(s30_12("abc", "x"), "s30_12");
    assert!(c30_13(), "c30_13");
    assert!(s30_13("abc", "b:"), "s30_13");
    assert!(c30_14(), "c30_14");
    assert!(s30_14("abc", "zz"), "s30_14");
    assert!(c30_15(), "c30_15");
    assert!(s30_15("%a1", "a"), "s30_15");
    assert!(c30_16(), "c30_16");
    assert!(s30_16("%a1", ":"), "s30_16");
    assert!(c30_17(), "c30_17");
    assert!(s30_17("%a1", "x"), "s30_17");
    assert!(c30_18(), "c30_18");
    assert!(s30_18("%a1", "b:"), "s30_18");
    assert!(c30_19(), "c30_19");
    assert!(s30_19("%a1", "zz"), "s30_19");
    assert!(c30_20(), "c30_20");
    assert!(s30_20("\u{e9}%x", "a"), "s30_20");
    assert!(c30_21(), "c30_21");
    assert!(s30_21("\u{e9}%x", ":"), "s30_21");
    assert!(c30_22(), "c30_22");
    assert!(s30_22("\u{e9}%x", "x"), "s30_22");
    assert!(c30_23(), "c30_23");
    assert!(s30_23("\u{e9}%x", "b:"), "s30_23");
    assert!(c30_24(), "c30_24");
    assert!(s30_24("\u{e9}%x", "zz"), "s30_24");
    assert!(c30_25(), "c30_25");
    assert!(s30_25("a:b:c", "a"), "s30_25");
    assert!(c30_26(), "c30_26");
    assert!(s30_26("a:b:c", ":"), "s30_26");
    assert!(c30_27(), "c30_27");
    assert!(s30_27("a:b:c", "x"), "s30_27");
    assert!(c30_28(), "c30_28");
    assert!(s30_28("a:b:c", "b:"), "s30_28");
    assert!(c30_29(), "c30_29");
    assert!(s30_29("a:b:c", "zz"), "s30_29");
    assert!(c30_30(), "c30_30");
    assert!(s30_30("::", "a"), "s30_30");
    assert!(c30_31(), "c30_31");
    assert!(s30_31("::", ":"), "s30_31");
    assert!(c30_32(), "c30_32");
    assert!(s30_32("::", "x"), "s30_32");
    assert!(c30_33(), "c30_33");
    assert!(s30_33("::", "b:"), "s30_33");
    assert!(c30_34(), "c30_34");
    assert!(s30_34("::", "zz"), "s30_34");
    assert!(c30_35(), "c30_35");
    assert!(s30_35("  x ", "a"), "s30_35");
    assert!(c30_36(), "c30_36");
    assert!(s30_36("  x ", ":"), "s30_36");
    assert!(c30_37(), "c30_37");
    assert!(s30_37("  x ", "x"), "s30_37");
    assert!(c30_38(), "c30_38");
    assert!(s30_38("  x ", "b:"), "s30_38");
    assert!(c30_39(), "c30_39");
    assert!(s30_39("  x ", "zz"), "s30_39");
    assert!(c30_40(), "c30_40");
    assert!(s30_40("12", "a"), "s30_40");
    assert!(c30_41(), "c30_41");
    assert!(s30_41("12", ":"), "s30_41");
    assert!(c30_42(), "c30_42");
    assert!(s30_42("12", "x"), "s30_42");
    assert!(c30_43(), "c30_43");
    assert!(s30_43("12", "b:"), "s30_43");
    assert!(c30_44(), "c30_44");
    assert!(s30_44("12", "zz"), "s30_44");
    assert!(c30_45(), "c30_45");
    assert!(s30_45("-5", "a"), "s30_45");
    assert!(c30_46(), "c30_46");
    assert!(s30_46("-5", ":"), "s30_46");
    assert!(c30_47(), "c30_47");
    assert!(s30_47("-5", "x"), "s30_47");
    assert!(c30_48(), "c30_48");
    assert!(s30_48("-5", "b:"), "s30_48");
    assert!(c30_49(), "c30_49");
    assert!(s30_49("-5", "zz"), "s30_49");
    assert!(c30_50(), "c30_50");
    assert!(s30_50("+7", "a"), "s30_50");
    assert!(c30_51(), "c30_51");
    assert!(s30_51("+7", ":"), "s30_51");
    assert!(c30_52(), "c30_52");
    assert!(s30_52("+7", "x"), "s30_52");
    assert!(c30_53(), "c30_53");
    assert!(s30_53("+7", "b:"), "s30_53");
    assert!(c30_54(), "c30_54");
    assert!(s30_54("+7", "zz"), "s30_54");
    assert!(c30_55(), "c30_55");
    assert!(s30_55("99999999999999999999", "a"), "s30_55");
    assert!(c30_56(), "c30_56");
    assert!(s30_56("99999999999999999999", ":"), "s30_56");
    assert!(c30_57(), "c30_57");
    assert!(s30_57("99999999999999999999", "x"), "s30_57");
    assert!(c30_58(), "c30_58");
    assert!(s30_58("99999999999999999999", "b:"), "s30_58");
    assert!(c30_59(), "c30_59");
    assert!(s30_59("99999999999999999999", "zz"), "s30_59");
    assert!(c30_60(), "c30_60");
    assert!(s30_60("a\u{a}b\u{d}\u{a}c", "a"), "s30_60");
    assert!(c30_61(), "c30_61");
    assert!(s30_61("a\u{a}b\u{d}\u{a}c", ":"), "s30_61");
    assert!(c30_62(), "c30_62");
    assert!(s30_62("a\u{a}b\u{d}\u{a}c", "x"), "s30_62");
    assert!(c30_63(), "c30_63");
    assert!(s30_63("a\u{a}b\u{d}\u{a}c", "b:"), "s30_63");
    assert!(c30_64(), "c30_64");
    assert!(s30_64("a\u{a}b\u{d}\u{a}c", "zz"), "s30_64");
    assert!(c30_65(), "c30_65");
    assert!(s30_65("\u{65e5}\u{672c}", "a"), "s30_65");
    assert!(c30_66(), "c30_66");
    assert!(s30_66("\u{65e5}\u{672c}", ":"), "s30_66");
    assert!(c30_67(), "c30_67");
    assert!(s30_67("\u{65e5}\u{672c}", "x"), "s30_67");
    assert!(c30_68(), "c30_68");
    assert!(s30_68("\u{65e5}\u{672c}", "b:"), "s30_68");
    assert!(c30_69(), "c30_69");
    assert!(s30_69("\u{65e5}\u{672c}", "zz"), "s30_69");
    assert!(c30_70(), "c30_70");
    assert!(s30_70("\u{1f600}z", "a"), "s30_70");
    assert!(c30_71(), "c30_71");
    assert!(s30_71("\u{1f600}z", ":"), "s30_71");
    assert!(c30_72(), "c30_72");
    assert!(s30_72("\u{1f600}z", "x"), "s30_72");
    assert!(c30_73(), "c30_73");
    assert!(s30_73("\u{1f600}z", "b:"), "s30_73");
    assert!(c30_74(), "c30_74");
    assert!(s30_74("\u{1f600}z", "zz"), "s30_74");
    assert!(c30_75(), "c30_75");
    assert!(s30_75("xx", "a"), "s30_75");
    assert!(c30_76(), "c30_76");
    assert!(s30_76("xx", ":"), "s30_76");
    assert!(c30_77(), "c30_77");
    assert!(s30_77("xx", "x"), "s30_77");
    assert!(c30_78(), "c30_78");
    assert!(s30_78("xx", "b:"), "s30_78");
    assert!(c30_79(), "c30_79");
    assert!(s30_79("xx", "zz"), "s30_79");
    assert!(c31_0(), "c31_0");
    assert!(s31_0("", "a"), "s31_0");
    assert!(c31_1(), "c31_1");
    assert!(s31_1("", ":"), "s31_1");
    assert!(c31_2(), "c31_2");
    assert!(s31_2("", "x"), "s31_2");
    assert!(c31_3(), "c31_3");
    assert!(s31_3("", "b:"), "s31_3");
    assert!(c31_4(), "c31_4");
    assert!(s31_4("", "zz"), "s31_4");
    assert!(c31_5(), "c31_5");
    assert!(s31_5("a", "a"), "s31_5");
    assert!(c31_6(), "c31_6");
    assert!(s31_6("a", ":"), "s31_6");
    assert!(c31_7(), "c31_7");
    assert!(s31_7("a", "x"), "s31_7");
    assert!(c31_8(), "c31_8");
    assert!(s31_8("a", "b:"), "s31_8");
    assert!(c31_9(), "c31_9");
    assert!(s31_9("a", "zz"), "s31_9");
    assert!(c31_10(), "c31_10");
    assert!(s31_10("abc", "a"), "s31_10");
    assert!(c31_11(), "c31_11");
    assert!(s31_11("abc", ":"), "s31_11");
    assert!(c31_12(), "c31_12");
    assert!(s31_12("abc", "x"), "s31_12");
    assert!(c31_13(), "c31_13");
    assert!(s31_13("abc", "b:"), "s31_13");
    assert!(c31_14(), "c31_14");
    assert!(s31_14("abc", "zz"), "s31_14");
    assert!(c31_15(), "c31_15");
    assert!(s31_15("%a1", "a"), "s31_15");
    assert!(c31_16(), "c31_16");
    assert!(s31_16("%a1", ":"), "s31_16");
    assert!(c31_17(), "c31_17");
    assert!(s31_17("%a1", "x"), "s31_17");
    assert!(c31_18(), "c31_18");
    assert!(s31_18("%a1", "b:"), "s31_18");
    assert!(c31_19(), "c31_19");
    assert!(s31_19("%a1", "zz"), "s31_19");
    assert!(c31_20(), "c31_20");
    assert!(s31_20("\u{e9}%x", "a"), "s31_20");
    assert!(c31_21(), "c31_21");
    assert!(s31_21("\u{e9}%x", ":"), "s31_21");
    assert!(c31_22(), "c31_22");
    assert!(s31_22("\u{e9}%x", "x"), "s31_22");
    assert!(c31_23(), "c31_23");
    assert!(s31_23("\u{e9}%x", "b:"), "s31_23");
    assert!(c31_24(), "c31_24");
    assert!(s31_24("\u{e9}%x", "zz"), "s31_24");
    assert!(c31_25(), "c31_25");
    assert!(s31_25("a:b:c", "a"), "s31_25");
    assert!(c31_26(), "c31_26");
    assert!(s31_26("a:b:c", ":"), "s31_26");
    assert!(c31_27(), "c31_27");
    assert!(s31_27("a:b:c", "x"), "s31_27");
    assert!(c31_28(), "c31_28");
    assert!(s31_28("a:b:c", "b:"), "s31_28");
    assert!(c31_29(), "c31_29");
    assert!(s31_29("a:b:c", "zz"), "s31_29");
    assert!(c31_30(), "c31_30");
    assert!(s31_30("::", "a"), "s31_30");
    assert!(c31_31(), "c31_31");
    assert!(s31_31("::", ":"), "s31_31");
    assert!(c31_32(), "c31_32");
    assert!(s31_32("::", "x"), "s31_32");
    assert!(c31_33(), "c31_33");
    assert!(s31_33("::", "b:"), "s31_33");
    assert!(c31_34(), "c31_34");
    assert!(s31_34("::", "zz"), "s31_34");
    assert!(c31_35(), "c31_35");
    assert!(s31_35("  x ", "a"), "s31_35");
    assert!(c31_36(), "c31_36");
    assert!(s31_36("  x ", ":"), "s31_36");
    assert!(c31_37(), "c31_37");
    assert!(s31_37("  x ", "x"), "s31_37");
    assert!(c31_38(), "c31_38");
    assert!(s31_38("  x ", "b:"), "s31_38");
    assert!(c31_39(), "c31_39");
    assert!(s31_39("  x ", "zz"), "s31_39");
    assert!(c31_40(), "c31_40");
    assert!(s31_40("12", "a"), "s31_40");
    assert!(c31_41(), "c31_41");
    assert!(s31_41("12", ":"), "s31_41");
    assert!(c31_42(), "c31_42");
    assert!(s31_42("12", "x"), "s31_42");
    assert!(c31_43(), "c31_43");
    assert!(s31_43("12", "b:"), "s31_43");
    assert!(c31_44(), "c31_44");
    assert!(s31_44("12", "zz"), "s31_44");
    assert!(c31_45(), "c31_45");
    assert!(s31_45("-5", "a"), "s31_45");
    assert!(c31_46(), "c31_46");
    assert!(s31_46("-5", ":"), "s31_46");
    assert!(c31_47(), "c31_47");
    assert!(s31_47("-5", "x"), "s31_47");
    assert!(c31_48(), "c31_48");
    assert!(s31_48("-5", "b:"), "s31_48");
    assert!(c31_49(), "c31_49");
    assert!(s31_49("-5", "zz"), "s31_49");
    assert!(c31_50(), "c31_50");
    assert!(s31_50("+7", "a"), "s31_50");
    assert!(c31_51(), "c31_51");
    assert!(s31_51("+7", ":"), "s31_51");
    assert!(c31_52(), "c31_52");
    assert!(s31_52("+7", "x"), "s31_52");
    assert!(c31_53(), "c31_53");
    assert!(s31_53("+7", "b:"), "s31_53");
    assert!(c31_54(), "c31_54");
    assert!(s31_54("+7", "zz"), "s31_54");
    assert!(c31_55(), "c31_55");
    assert!(s31_55("99999999999999999999", "a"), "s31_55");
    assert!(c31_56(), "c31_56");
    assert!(s31_56("99999999999999999999", ":"), "s31_56");
    assert!(c31_57(), "c31_57");
    assert!(s31_57("99999999999999999999", "x"), "s31_57");
    assert!(c31_58(), "c31_58");
    assert!(s31_58("99999999999999999999", "b:"), "s31_58");
    assert!(c31_59(), "c31_59");
    assert!(s31_59("99999999999999999999", "zz"), "s31_59");
    assert!(c31_60(), "c31_60");
    assert!(s31_60("a\u{a}b\u{d}\u{a}c", "a"), "s31_60");
    assert!(c31_61(), "c31_61");
    assert!(s31_61("a\u{a}b\u{d}\u{a}c", ":"), "s31_61");
    assert!(c31_62(), "c31_62");
    assert!(s31_62("a\u{a}b\u{d}\u{a}c", "x"), "s31_62");
    assert!(c31_63(), "c31_63");
    assert!(s31_63("a\u{a}b\u{d}\u{a}c", "b:"), "s31_63");
    assert!(c31_64(), "c31_64");
    assert!(s31_64("a\u{a}b\u{d}\u{a}c", "zz"), "s31_64");
    assert!(c31_65(), "c31_65");
    assert!(s31_65("\u{65e5}\u{672c}", "a"), "s31_65");
    assert!(c31_66(), "c31_66");
    assert!(s31_66("\u{65e5}\u{672c}", ":"), "s31_66");
    assert!(c31_67(), "c31_67");
    assert!(s31_67("\u{65e5}\u{672c}", "x"), "s31_67");
    assert!(c31_68(), "c31_68");
    assert!(s31_68("\u{65e5}\u{672c}", "b:"), "s31_68");
    assert!(c31_69(), "c31_69");
    assert!(s31_69("\u{65e5}\u{672c}", "zz"), "s31_69");
    assert!(c31_70(), "c31_70");
    assert!(s31_70("\u{1f600}z", "a"), "s31_70");
    assert!(c31_71(), "c31_71");
    assert!(s31_71("\u{1f600}z", ":"), "s31_71");
    assert!(c31_72(), "c31_72");
    assert!(s31_72("\u{1f600}z", "x"), "s31_72");
    assert!(c31_73(), "c31_73");
    assert!(s31_73("\u{1f600}z", "b:"), "s31_73");
    assert!(c31_74(), "c31_74");
    assert!(s31_74("\u{1f600}z", "zz"), "s31_74");
    assert!(c31_75(), "c31_75");
    assert!(s31_75("xx", "a"), "s31_75");
    assert!(c31_76(), "c31_76");
    assert!(s31_76("xx", ":"), "s31_76");
    assert!(c31_77(), "c31_77");
    assert!(s31_77("xx", "x"), "s31_77");
    assert!(c31_78(), "c31_78");
    assert!(s31_78("xx", "b:"), "s31_78");
    assert!(c31_79(), "c31_79");
    assert!(s31_79("xx", "zz"), "s31_79");
    assert!(c32_0(), "c32_0");
    assert!(s32_0("", "a"), "s32_0");
    assert!(c32_1(), "c32_1");
    assert!(s32_1("", ":"), "s32_1");
    assert!(c32_2(), "c32_2");
    assert!(s32_2("", "x"), "s32_2");
    assert!(c32_3(), "c32_3");
    assert!(s32_3("", "b:"), "s32_3");
    assert!(c32_4(), "c32_4");
    assert!(s32_4("", "zz"), "s32_4");
    assert!(c32_5(), "c32_5");
    assert!(s32_5("a", "a"), "s32_5");
    assert!(c32_6(), "c32_6");
    assert!(s32_6("a", ":"), "s32_6");
    assert!(c32_7(), "c32_7");
    assert!(s32_7("a", "x"), "s32_7");
    assert!(c32_8(), "c32_8");
    assert!(s32_8("a", "b:"), "s32_8");
    assert!(c32_9(), "c32_9");
    assert!(s32_9("a", "zz"), "s32_9");
    assert!(c32_10(), "c32_10");
    assert!(s32_10("abc", "a"), "s32_10");
    assert!(c32_11(), "c32_11");
    assert!(s32_11("abc", ":"), "s32_11");
    assert!(c32_12(), "c32_12");
    assert!(s32_12("abc", "x"), "s32_12");
    assert!(c32_13(), "c32_13");
    assert!(s32_13("abc", "b:"), "s32_13");
    assert!(c32_14(), "c32_14");
    assert!(s32_14("abc", "zz"), "s32_14");
    assert!(c32_15(), "c32_15");
    assert!(s32_15("%a1", "a"), "s32_15");
    assert!(c32_16(), "c32_16");
    assert!(s32_16("%a1", ":"), "s32_16");
    assert!(c32_17(), "c32_17");
    assert!(s32_17("%a1", "x"), "s32_17");
    assert!(c32_18(), "c32_18");
    assert!(s32_18("%a1", "b:"), "s32_18");
    assert!(c32_19(), "c32_19");
    assert!(s32_19("%a1", "zz"), "s32_19");
    assert!(c32_20(), "c32_20");
    assert!(s32_20("\u{e9}%x", "a"), "s32_20");
    assert!(c32_21(), "c32_21");
    assert!(s32_21("\u{e9}%x", ":"), "s32_21");
    assert!(c32_22(), "c32_22");
    assert!(s32_22("\u{e9}%x", "x"), "s32_22");
    assert!(c32_23(), "c32_23");
    assert!(s32_23("\u{e9}%x", "b:"), "s32_23");
    assert!(c32_24(), "c32_24");
    assert!(s32_24("\u{e9}%x", "zz"), "s32_24");
    assert!(c32_25(), "c32_25");
    assert!(s32_25("a:b:c", "a"), "s32_25");
    assert!(c32_26(), "c32_26");
    assert!(s32_26("a:b:c", ":"), "s32_26");
    assert!(c32_27(), "c32_27");
    assert!(s32_27("a:b:c", "x"), "s32_27");
    assert!(c32_28(), "c32_28");
    assert!(s32_28("a:b:c", "b:"), "s32_28");
    assert!(c32_29(), "c32_29");
    assert!(s32_29("a:b:c", "zz"), "s32_29");
    assert!(c32_30(), "c32_30");
    assert!(s32_30("::", "a"), "s32_30");
    assert!(c32_31(), "c32_31");
    assert!(s32_31("::", ":"), "s32_31");
    assert!(c32_32(), "c32_32");
    assert!(s32_32("::", "x"), "s32_32");
    assert!(c32_33(), "c32_33");
    assert!(s32_33("::", "b:"), "s32_33");
    assert!(c32_34(), "c32_34");
    assert!(s32_34("::", "zz"), "s32_34");
    assert!(c32_35(), "c32_35");
    assert!(s32_35("  x ", "a"), "s32_35");
    assert!(c32_36(), "c32_36");
    assert!(s32_36("  x ", ":"), "s32_36");
    assert!(c32_37(), "c32_37");
    assert!(s32_37("  x ", "x"), "s32_37");
    assert!(c32_38(), "c32_38");
    assert!(s32_38("  x ", "b:"), "s32_38");
    assert!(c32_39(), "c32_39");
    assert!(s32_39("  x ", "zz"), "s32_39");
    assert!(c32_40(), "c32_40");
    assert!(s32_40("12", "a"), "s32_40");
    assert!(c32_41(), "c32_41");
    assert!(s32_41("12", ":"), "s32_41");
    assert!(c32_42(), "c32_42");
    assert!(s32_42("12", "x"), "s32_42");
    assert!(c32_43(), "c32_43");
    assert!(s32_43("12", "b:"), "s32_43");
    assert!(c32_44(), "c32_44");
    assert!(s32_44("12", "zz"), "s32_44");
    assert!(c32_45(), "c32_45");
    assert!(s32_45("-5", "a"), "s32_45");
    assert!(c32_46(), "c32_46");
    assert!(s32_46("-5", ":"), "s32_46");
    assert!(c32_47(), "c32_47");
    assert!(s32_47("-5", "x"), "s32_47");
    assert!(c32_48(), "c32_48");
    assert!(s32_48("-5", "b:"), "s32_48");
    assert!(c32_49(), "c32_49");
    assert!(s32_49("-5", "zz"), "s32_49");
    assert!(c32_50(), "c32_50");
    assert!(s32_50("+7", "a"), "s32_50");
    assert!(c32_51(), "c32_51");
    assert!(s32_51("+7", ":"), "s32_51");
    assert!(c32_52(), "c32_52");
    assert!(s32_52("+7", "x"), "s32_52");
    assert!(c32_53(), "c32_53");
    assert!(s32_53("+7", "b:"), "s32_53");
    assert!(c32_54(), "c32_54");
    assert!(s32_54("+7", "zz"), "s32_54");
    assert!(c32_55(), "c32_55");
    assert!(s32_55("99999999999999999999", "a"), "s32_55");
    assert!(c32_56(), "c32_56");
    assert!(s32_56("99999999999999999999", ":"), "s32_56");
    assert!(c32_57(), "c32_57");
    assert!(s32_57("99999999999999999999", "x"), "s32_57");
    assert!(c32_58(), "c32_58");
    assert!(s32_58("99999999999999999999", "b:"), "s32_58");
    assert!(c32_59(), "c32_59");
    assert!(s32_59("99999999999999999999", "zz"), "s32_59");
    assert!(c32_60(), "c32_60");
    assert!(s32_60("a\u{a}b\u{d}\u{a}c", "a"), "s32_60");
    assert!(c32_61(), "c32_61");
    assert!(s32_61("a\u{a}b\u{d}\u{a}c", ":"), "s32_61");
    assert!(c32_62(), "c32_62");
    assert!(s32_62("a\u{a}b\u{d}\u{a}c", "x"), "s32_62");
    assert!(c32_63(), "c32_63");
    assert!(s32_63("a\u{a}b\u{d}\u{a}c", "b:"), "s32_63");
    assert!(c32_64(), "c32_64");
    assert!(s32_64("a\u{a}b\u{d}\u{a}c", "zz"), "s32_64");
    assert!(c32_65(), "c32_65");
    assert!(s32_65("\u{65e5}\u{672c}", "a"), "s32_65");
    assert!(c32_66(), "c32_66");
    assert!(s32_66("\u{65e5}\u{672c}", ":"), "s32_66");
    assert!(c32_67(), "c32_67");
    assert!(s32_67("\u{65e5}\u{672c}", "x"), "s32_67");
    assert!(c32_68(), "c32_68");
    assert!(s32_68("\u{65e5}\u{672c}", "b:"), "s32_68");
    assert!(c32_69(), "c32_69");
    assert!(s32_69("\u{65e5}\u{672c}", "zz"), "s32_69");
    assert!(c32_70(), "c32_70");
    assert!(s32_70("\u{1f600}z", "a"), "s32_70");
    assert!(c32_71(), "c32_71");
    assert!(s32_71("\u{1f600}z", ":"), "s32_71");
    assert!(c32_72(), "c32_72");
    assert!(s32_72("\u{1f600}z", "x"), "s32_72");
    assert!(c32_73(), "c32_73");
    assert!(s32_73("\u{1f600}z", "b:"), "s32_73");
    assert!(c32_74(), "c32_74");
    assert!(s32_74("\u{1f600}z", "zz"), "s32_74");
    assert!(c32_75(), "c32_75");
    assert!(s32_75("xx", "a"), "s32_75");
    assert!(c32_76(), "c32_76");
    assert!(s32_76("xx", ":"), "s32_76");
    assert!(c32_77(), "c32_77");
    assert!(s32_77("xx", "x"), "s32_77");
    assert!(c32_78(), "c32_78");
    assert!(s32_78("xx", "b:"), "s32_78");
    assert!(c32_79(), "c32_79");
    assert!(s32_79("xx", "zz"), "s32_79");
    assert!(c33_0(), "c33_0");
    assert!(s33_0(""), "s33_0");
    assert!(c33_1(), "c33_1");
    assert!(s33_1("a"), "s33_1");
    assert!(c33_2(), "c33_2");
    assert!(s33_2("abc"), "s33_2");
    assert!(c33_3(), "c33_3");
    assert!(s33_3("%a1"), "s33_3");
    assert!(c33_4(), "c33_4");
    assert!(s33_4("\u{e9}%x"), "s33_4");
    assert!(c33_5(), "c33_5");
    assert!(s33_5("a:b:c"), "s33_5");
    assert!(c33_6(), "c33_6");
    assert!(s33_6("::"), "s33_6");
    assert!(c33_7(), "c33_7");
    assert!(s33_7("  x "), "s33_7");
    assert!(c33_8(), "c33_8");
    assert!(s33_8("12"), "s33_8");
    assert!(c33_9(), "c33_9");
    assert!(s33_9("-5"), "s33_9");
    assert!(c33_10(), "c33_10");
    assert!(s33_10("+7"), "s33_10");
    assert!(c33_11(), "c33_11");
    assert!(s33_11("99999999999999999999"), "s33_11");
    assert!(c33_12(), "c33_12");
    assert!(s33_12("a\u{a}b\u{d}\u{a}c"), "s33_12");
    assert!(c33_13(), "c33_13");
    assert!(s33_13("\u{65e5}\u{672c}"), "s33_13");
    assert!(c33_14(), "c33_14");
    assert!(s33_14("\u{1f600}z"), "s33_14");
    assert!(c33_15(), "c33_15");
    assert!(s33_15("xx"), "s33_15");
    assert!(c34_0(), "c34_0");
    assert!(s34_0(""), "s34_0");
    assert!(c34_1(), "c34_1");
    assert!(s34_1("a"), "s34_1");
    assert!(c34_2(), "c34_2");
    assert!(s34_2("abc"), "s34_2");
    assert!(c34_3(), "c34_3");
    assert!(s34_3("%a1"), "s34_3");
    assert!(c34_4(), "c34_4");
    assert!(s34_4("\u{e9}%x"), "s34_4");
    assert!(c34_5(), "c34_5");
    assert!(s34_5("a:b:c"), "s34_5");
    assert!(c34_6(), "c34_6");
    assert!(s34_6("::"), "s34_6");
    assert!(c34_7(), "c34_7");
    assert!(s34_7("  x "), "s34_7");
    assert!(c34_8(), "c34_8");
    assert!(s34_8("12"), "s34_8");
    assert!(c34_9(), "c34_9");
    assert!(s34_9("-5"), "s34_9");
    assert!(c34_10(), "c34_10");
    assert!(s34_10("+7"), "s34_10");
    assert!(c34_11(), "c34_11");
    assert!(s34_11("99999999999999999999"), "s34_11");
    assert!(c34_12(), "c34_12");
    assert!(s34_12("a\u{a}b\u{d}\u{a}c"), "s34_12");
    assert!(c34_13(), "c34_13");
    assert!(s34_13("\u{65e5}\u{672c}"), "s34_13");
    assert!(c34_14(), "c34_14");
    assert!(s34_14("\u{1f600}z"), "s34_14");
    assert!(c34_15(), "c34_15");
    assert!(s34_15("xx"), "s34_15");
    assert!(c35_0(), "c35_0");
    assert!(s35_0(""), "s35_0");
    assert!(c35_1(), "c35_1");
    assert!(s35_1("a"), "s35_1");
    assert!(c35_2(), "c35_2");
    assert!(s35_2("abc"), "s35_2");
    assert!(c35_3(), "c35_3");
    assert!(s35_3("%a1"), "s35_3");
    assert!(c35_4(), "c35_4");
    assert!(s35_4("\u{e9}%x"), "s35_4");
    assert!(c35_5(), "c35_5");
    assert!(s35_5("a:b:c"), "s35_5");
    assert!(c35_6(), "c35_6");
    assert!(s35_6("::"), "s35_6");
    assert!(c35_7(), "c35_7");
    assert!(s35_7("  x "), "s35_7");
    assert!(c35_8(), "c35_8");
    assert!(s35_8("12"), "s35_8");
    assert!(c35_9(), "c35_9");
    assert!(s35_9("-5"), "s35_9");
    assert!(c35_10(), "c35_10");
    assert!(s35_10("+7"), "s35_10");
    assert!(c35_11(), "c35_11");
    assert!(s35_11("99999999999999999999"), "s35_11");
    assert!(c35_12(), "c35_12");
    assert!(s35_12("a\u{a}b\u{d}\u{a}c"), "s35_12");
    assert!(c35_13(), "c35_13");
    assert!(s35_13("\u{65e5}\u{672c}"), "s35_13");
    assert!(c35_14(), "c35_14");
    assert!(s35_14("\u{1f600}z"), "s35_14");
    assert!(c35_15(), "c35_15");
    assert!(s35_15("xx"), "s35_15");
    assert!(c36_0(), "c36_0");
    assert!(s36_0(""), "s36_0");
    assert!(c36_1(), "c36_1");
    assert!(s36_1("a"), "s36_1");
    assert!(c36_2(), "c36_2");
    assert!(s36_2("abc"), "s36_2");
    assert!(c36_3(), "c36_3");
    assert!(s36_3("%a1"), "s36_3");
    assert!(c36_4(), "c36_4");
    assert!(s36_4("\u{e9}%x"), "s36_4");
    assert!(c36_5(), "c36_5");
    assert!(s36_5("a:b:c"), "s36_5");
    assert!(c36_6(), "c36_6");
    assert!(s36_6("::"), "s36_6");
    assert!(c36_7(), "c36_7");
    assert!(s36_7("  x "), "s36_7");
    assert!(c36_8(), "c36_8");
    assert!(s36_8("12"), "s36_8");
    assert!(c36_9(), "c36_9");
    assert!(s36_9("-5"), "s36_9");
    assert!(c36_10(), "c36_10");
    assert!(s36_10("+7"), "s36_10");
    assert!(c36_11(), "c36_11");
    assert!(s36_11("99999999999999999999"), "s36_11");
    assert!(c36_12(), "c36_12");
    assert!(s36_12("a\u{a}b\u{d}\u{a}c"), "s36_12");
    assert!(c36_13(), "c36_13");
    assert!(s36_13("\u{65e5}\u{672c}"), "s36_13");
    assert!(c36_14(), "c36_14");
    assert!(s36_14("\u{1f600}z"), "s36_14");
    assert!(c36_15(), "c36_15");
    assert!(s36_15("xx"), "s36_15");
    assert!(c37_0(), "c37_0");
    assert!(s37_0(""), "s37_0");
    assert!(c37_1(), "c37_1");
    assert!(s37_1("a"), "s37_1");
    assert!(c37_2(), "c37_2");
    assert!(s37_2("abc"), "s37_2");
    assert!(c37_3(), "c37_3");
    assert!(s37_3("%a1"), "s37_3");
    assert!(c37_4(), "c37_4");
    assert!(s37_4("\u{e9}%x"), "s37_4");
    assert!(c37_5(), "c37_5");
    assert!(s37_5("a:b:c"), "s37_5");
    assert!(c37_6(), "c37_6");
    assert!(s37_6("::"), "s37_6");
    assert!(c37_7(), "c37_7");
    assert!(s37_7("  x "), "s37_7");
    assert!(c37_8(), "c37_8");
    assert!(s37_8("12"), "s37_8");
    assert!(c37_9(), "c37_9");
    assert!(s37_9("-5"), "s37_9");
    assert!(c37_10(), "c37_10");
    assert!(s37_10("+7"), "s37_10");
    assert!(c37_11(), "c37_11");
    assert!(s37_11("99999999999999999999"), "s37_11");
    assert!(c37_12(), "c37_12");
    assert!(s37_12("a\u{a}b\u{d}\u{a}c"), "s37_12");
    assert!(c37_13(), "c37_13");
    assert!(s37_13("\u{65e5}\u{672c}"), "s37_13");
    assert!(c37_14(), "c37_14");
    assert!(s37_14("\u{1f600}z"), "s37_14");
    assert!(c37_15(), "c37_15");
    assert!(s37_15("xx"), "s37_15");
    assert!(c38_0(), "c38_0");
    assert!(s38_0(""), "s38_0");
    assert!(c38_1(), "c38_1");
    assert!(s38_1("a"), "s38_1");
    assert!(c38_2(), "c38_2");
    assert!(s38_2("abc"), "s38_2");
    assert!(c38_3(), "c38_3");
    assert!(s38_3("%a1"), "s38_3");
    assert!(c38_4(), "c38_4");
    assert!(s38_4("\u{e9}%x"), "s38_4");
    assert!(c38_5(), "c38_5");
    assert!(s38_5("a:b:c"), "s38_5");
    assert!(c38_6(), "c38_6");
    assert!(s38_6("::"), "s38_6");
    assert!(c38_7(), "c38_7");
    assert!(s38_7("  x "), "s38_7");
    assert!(c38_8(), "c38_8");
    assert!(s38_8("12"), "s38_8");
    assert!(c38_9(), "c38_9");
    assert!(s38_9("-5"), "s38_9");
    assert!(c38_10(), "c38_10");
    assert!(s38_10("+7"), "s38_10");
    assert!(c38_11(), "c38_11");
    assert!(s38_11("99999999999999999999"), "s38_11");
    assert!(c38_12(), "c38_12");
    assert!(s38_12("a\u{a}b\u{d}\u{a}c"), "s38_12");
    assert!(c38_13(), "c38_13");
    assert!(s38_13("\u{65e5}\u{672c}"), "s38_13");
    assert!(c38_14(), "c38_14");
    assert!(s38_14("\u{1f600}z"), "s38_14");
    assert!(c38_15(), "c38_15");
    assert!(s38_15("xx"), "s38_15");
    assert!(c39_0(), "c39_0");
    assert!(s39_0(""), "s39_0");
    assert!(c39_1(), "c39_1");
    assert!(s39_1("a"), "s39_1");
    assert!(c39_2(), "c39_2");
    assert!(s39_2("abc"), "s39_2");
    assert!(c39_3(), "c39_3");
    assert!(s39_3("%a1"), "s39_3");
    assert!(c39_4(), "c39_4");
    assert!(s39_4("\u{e9}%x"), "s39_4");
    assert!(c39_5(), "c39_5");
    assert!(s39_5("a:b:c"), "s39_5");
    assert!(c39_6(), "c39_6");
    assert!(s39_6("::"), "s39_6");
    assert!(c39_7(), "c39_7");
    assert!(s39_7("  x "), "s39_7");
    assert!(c39_8(), "c39_8");
    assert!(s39_8("12"), "s39_8");
    assert!(c39_9(), "c39_9");
    assert!(s39_9("-5"), "s39_9");
    assert!(c39_10(), "c39_10");
    assert!(s39_10("+7"), "s39_10");
    assert!(c39_11(), "c39_11");
    assert!(s39_11("99999999999999999999"), "s39_11");
    assert!(c39_12(), "c39_12");
    assert!(s39_12("a\u{a}b\u{d}\u{a}c"), "s39_12");
    assert!(c39_13(), "c39_13");
    assert!(s39_13("\u{65e5}\u{672c}"), "s39_13");
    assert!(c39_14(), "c39_14");
    assert!(s39_14("\u{1f600}z"), "s39_14");
    assert!(c39_15(), "c39_15");
    assert!(s39_15("xx"), "s39_15");
    assert!(c40_0(), "c40_0");
    assert!(s40_0(""), "s40_0");
    assert!(c40_1(), "c40_1");
    assert!(s40_1("a"), "s40_1");
    assert!(c40_2(), "c40_2");
    assert!(s40_2("abc"), "s40_2");
    assert!(c40_3(), "c40_3");
    assert!(s40_3("%a1"), "s40_3");
    assert!(c40_4(), "c40_4");
    assert!(s40_4("\u{e9}%x"), "s40_4");
    assert!(c40_5(), "c40_5");
    assert!(s40_5("a:b:c"), "s40_5");
    assert!(c40_6(), "c40_6");
    assert!(s40_6("::"), "s40_6");
    assert!(c40_7(), "c40_7");
    assert!(s40_7("  x "), "s40_7");
    assert!(c40_8(), "c40_8");
    assert!(s40_8("12"), "s40_8");
    assert!(c40_9(), "c40_9");
    assert!(s40_9("-5"), "s40_9");
    assert!(c40_10(), "c40_10");
    assert!(s40_10("+7"), "s40_10");
    assert!(c40_11(), "c40_11");
    assert!(s40_11("99999999999999999999"), "s40_11");
    assert!(c40_12(), "c40_12");
    assert!(s40_12("a\u{a}b\u{d}\u{a}c"), "s40_12");
    assert!(c40_13(), "c40_13");
    assert!(s40_13("\u{65e5}\u{672c}"), "s40_13");
    assert!(c40_14(), "c40_14");
    assert!(s40_14("\u{1f600}z"), "s40_14");
    assert!(c40_15(), "c40_15");
    assert!(s40_15("xx"), "s40_15");
    assert!(c41_0(), "c41_0");
    assert!(s41_0(""), "s41_0");
    assert!(c41_1(), "c41_1");
    assert!(s41_1("a"), "s41_1");
    assert!(c41_2(), "c41_2");
    assert!(s41_2("abc"), "s41_2");
    assert!(c41_3(), "c41_3");
    assert!(s41_3("%a1"), "s41_3");
    assert!(c41_4(), "c41_4");
    assert!(s41_4("\u{e9}%x"), "s41_4");
    assert!(c41_5(), "c41_5");
    assert!(s41_5("a:b:c"), "s41_5");
    assert!(c41_6(), "c41_6");
    assert!(s41_6("::"), "s41_6");
    assert!(c41_7(), "c41_7");
    assert!(s41_7("  x "), "s41_7");
    assert!(c41_8(), "c41_8");
    assert!(s41_8("12"), "s41_8");
    assert!(c41_9(), "c41_9");
    assert!(s41_9("-5"), "s41_9");
    assert!(c41_10(), "c41_10");
    assert!(s41_10("+7"), "s41_10");
    assert!(c41_11(), "c41_11");
    assert!(s41_11("99999999999999999999"), "s41_11");
    assert!(c41_12(), "c41_12");
    assert!(s41_12("a\u{a}b\u{d}\u{a}c"), "s41_12");
    assert!(c41_13(), "c41_13");
    assert!(s41_13("\u{65e5}\u{672c}"), "s41_13");
    assert!(c41_14(), "c41_14");
    assert!(s41_14("\u{1f600}z"), "s41_14");
    assert!(c41_15(), "c41_15");
    assert!(s41_15("xx"), "s41_15");
    assert!(c42_0(), "c42_0");
    assert!(s42_0(""), "s42_0");
    assert!(c42_1(), "c42_1");
    assert!(s42_1("a"), "s42_1");
    assert!(c42_2(), "c42_2");
    assert!(s42_2("abc"), "s42_2");
    assert!(c42_3(), "c42_3");
    assert!(s42_3("%a1"), "s42_3");
    assert!(c42_4(), "c42_4");
    assert!(s42_4("\u{e9}%x"), "s42_4");
    assert!(c42_5(), "c42_5");
    assert!(s42_5("a:b:c"), "s42_5");
    assert!(c42_6(), "c42_6");
    assert!(s42_6("::"), "s42_6");
    assert!(c42_7(), "c42_7");
    assert!(s42_7("  x "), "s42_7");
    assert!(c42_8(), "c42_8");
    assert!(s42_8("12"), "s42_8");
    assert!(c42_9(), "c42_9");
    assert!(s42_9("-5"), "s42_9");
    assert!(c42_10(), "c42_10");
    assert!(s42_10("+7"), "s42_10");
    assert!(c42_11(), "c42_11");
    assert!(s42_11("99999999999999999999"), "s42_11");
    assert!(c42_12(), "c42_12");
    assert!(s42_12("a\u{a}b\u{d}\u{a}c"), "s42_12");
    assert!(c42_13(), "c42_13");
    assert!(s42_13("\u{65e5}\u{672c}"), "s42_13");
    assert!(c42_14(), "c42_14");
    assert!(s42_14("\u{1f600}z"), "s42_14");
    assert!(c42_15(), "c42_15");
    assert!(s42_15("xx"), "s42_15");
    assert!(c43_0(), "c43_0");
    assert!(s43_0("", "a"), "s43_0");
    assert!(c43_1(), "c43_1");
    assert!(s43_1("", ":"), "s43_1");
    assert!(c43_2(), "c43_2");
    assert!(s43_2("", "x"), "s43_2");
    assert!(c43_3(), "c43_3");
    assert!(s43_3("", "b:"), "s43_3");
    assert!(c43_4(), "c43_4");
    assert!(s43_4("", "zz"), "s43_4");
    assert!(c43_5(), "c43_5");
    assert!(s43_5("a", "a"), "s43_5");
    assert!(c43_6(), "c43_6");
    assert!(s43_6("a", ":"), "s43_6");
    assert!(c43_7(), "c43_7");
    assert!(s43_7("a", "x"), "s43_7");
    assert!(c43_8(), "c43_8");
    assert!(s43_8("a", "b:"), "s43_8");
    assert!(c43_9(), "c43_9");
    assert!(s43_9("a", "zz"), "s43_9");
    assert!(c43_10(), "c43_10");
    assert!(s43_10("abc", "a"), "s43_10");
    assert!(c43_11(), "c43_11");
    assert!(s43_11("abc", ":"), "s43_11");
    assert!(c43_12(), "c43_12");
    assert!(s43_12("abc", "x"), "s43_12");
    assert!(c43_13(), "c43_13");
    assert!(s43_13("abc", "b:"), "s43_13");
    assert!(c43_14(), "c43_14");
    assert!(s43_14("abc", "zz"), "s43_14");
    assert!(c43_15(), "c43_15");
    assert!(s43_15("%a1", "a"), "s43_15");
    assert!(c43_16(), "c43_16");
    assert!(s43_16("%a1", ":"), "s43_16");
    assert!(c43_17(), "c43_17");
    assert!(s43_17("%a1", "x"), "s43_17");
    assert!(c43_18(), "c43_18");
    assert!(s43_18("%a1", "b:"), "s43_18");
    assert!(c43_19(), "c43_19");
    assert!(s43_19("%a1", "zz"), "s43_19");
    assert!(c43_20(), "c43_20");
    assert!(s43_20("\u{e9}%x", "a"), "s43_20");
    assert!(c43_21(), "c43_21");
    assert!(s43_21("\u{e9}%x", ":"), "s43_21");
    assert!(c43_22(), "c43_22");
    assert!(s43_22("\u{e9}%x", "x"), "s43_22");
    assert!(c43_23(), "c43_23");
    assert!(s43_23("\u{e9}%x", "b:"), "s43_23");
    assert!(c43_24(), "c43_24");
    assert!(s43_24("\u{e9}%x", "zz"), "s43_24");
    assert!(c43_25(), "c43_25");
    assert!(s43_25("a:b:c", "a"), "s43_25");
    assert!(c43_26(), "c43_26");
    assert!(s43_26("a:b:c", ":"), "s43_26");
    assert!(c43_27(), "c43_27");
    assert!(s43_27("a:b:c", "x"), "s43_27");
    assert!(c43_28(), "c43_28");
    assert!(s43_28("a:b:c", "b:"), "s43_28");
    assert!(c43_29(), "c43_29");
    assert!(s43_29("a:b:c", "zz"), "s43_29");
    assert!(c43_30(), "c43_30");
    assert!(s43_30("::", "a"), "s43_30");
    assert!(c43_31(), "c43_31");
    assert!(s43_31("::", ":"), "s43_31");
    assert!(c43_32(), "c43_32");
    assert!(s43_32("::", "x"), "s43_32");
    assert!(c43_33(), "c43_33");
    assert!(s43_33("::", "b:"), "s43_33");
    assert!(c43_34(), "c43_34");
    assert!(s43_34("::", "zz"), "s43_34");
    assert!(c43_35(), "c43_35");
    assert!(s43_35("  x ", "a"), "s43_35");
    assert!(c43_36(), "c43_36");
    assert!(s43_36("  x ", ":"), "s43_36");
    assert!(c43_37(), "c43_37");
    assert!(s43_37("  x ", "x"), "s43_37");
    assert!(c43_38(), "c43_38");
    assert!(s43_38("  x ", "b:"), "s43_38");
    assert!(c43_39(), "c43_39");
    assert!(s43_39("  x ", "zz"), "s43_39");
    assert!(c43_40(), "c43_40");
    assert!(s43_40("12", "a"), "s43_40");
    assert!(c43_41(), "c43_41");
    assert!(s43_41("12", ":"), "s43_41");
    assert!(c43_42(), "c43_42");
    assert!(s43_42("12", "x"), "s43_42");
    assert!(c43_43(), "c43_43");
    assert!(s43_43("12", "b:"), "s43_43");
    assert!(c43_44(), "c43_44");
    assert!(s43_44("12", "zz"), "s43_44");
    assert!(c43_45(), "c43_45");
    assert!(s43_45("-5", "a"), "s43_45");
    assert!(c43_46(), "c43_46");
    assert!(s43_46("-5", ":"), "s43_46");
    assert!(c43_47(), "c43_47");
    assert!(s43_47("-5", "x"), "s43_47");
    assert!(c43_48(), "c43_48");
    assert!(s43_48("-5", "b:"), "s43_48");
    assert!(c43_49(), "c43_49");
    assert!(s43_49("-5", "zz"), "s43_49");
    assert!(c43_50(), "c43_50");
    assert!(s43_50("+7", "a"), "s43_50");
    assert!(c43_51(), "c43_51");
    assert!(s43_51("+7", ":"), "s43_51");
    assert!(c43_52(), "c43_52");
    assert!(s43_52("+7", "x"), "s43_52");
    assert!(c43_53(), "c43_53");
    assert!(s43_53("+7", "b:"), "s43_53");
    assert!(c43_54(), "c43_54");
    assert!(s43_54("+7", "zz"), "s43_54");
    assert!(c43_55(), "c43_55");
    assert!(s43_55("99999999999999999999", "a"), "s43_55");
    assert!(c43_56(), "c43_56");
    assert!(s43_56("99999999999999999999", ":"), "s43_56");
    assert!(c43_57(), "c43_57");
    assert!(s43_57("99999999999999999999", "x"), "s43_57");
    assert!(c43_58(), "c43_58");
    assert!(s43_58("99999999999999999999", "b:"), "s43_58");
    assert!(c43_59(), "c43_59");
    assert!(s43_59("99999999999999999999", "zz"), "s43_59");
    assert!(c43_60(), "c43_60");
    assert!(s43_60("a\u{a}b\u{d}\u{a}c", "a"), "s43_60");
    assert!(c43_61(), "c43_61");
    assert!(s43_61("a\u{a}b\u{d}\u{a}c", ":"), "s43_61");
    assert!(c43_62(), "c43_62");
    assert!(s43_62("a\u{a}b\u{d}\u{a}c", "x"), "s43_62");
    assert!(c43_63(), "c43_63");
    assert!(s43_63("a\u{a}b\u{d}\u{a}c", "b:"), "s43_63");
    assert!(c43_64(), "c43_64");
    assert!(s43_64("a\u{a}b\u{d}\u{a}c", "zz"), "s43_64");
    assert!(c43_65(), "c43_65");
    assert!(s43_65("\u{65e5}\u{672c}", "a"), "s43_65");
    assert!(c43_66(), "c43_66");
    assert!(s43_66("\u{65e5}\u{672c}", ":"), "s43_66");
    assert!(c43_67(), "c43_67");
    assert!(s43_67("\u{65e5}\u{672c}", "x"), "s43_67");
    assert!(c43_68(), "c43_68");
    assert!(s43_68("\u{65e5}\u{672c}", "b:"), "s43_68");
    assert!(c43_69(), "c43_69");
    assert!(s43_69("\u{65e5}\u{672c}", "zz"), "s43_69");
    assert!(c43_70(), "c43_70");
    assert!(s43_70("\u{1f600}z", "a"), "s43_70");
    assert!(c43_71(), "c43_71");
    assert!(s43_71("\u{1f600}z", ":"), "s43_71");
    assert!(c43_72(), "c43_72");
    assert!(s43_72("\u{1f600}z", "x"), "s43_72");
    assert!(c43_73(), "c43_73");
    assert!(s43_73("\u{1f600}z", "b:"), "s43_73");
    assert!(c43_74(), "c43_74");
    assert!(s43_74("\u{1f600}z", "zz"), "s43_74");
    assert!(c43_75(), "c43_75");
    assert!(s43_75("xx", "a"), "s43_75");
    assert!(c43_76(), "c43_76");
    assert!(s43_76("xx", ":"), "s43_76");
    assert!(c43_77(), "c43_77");
    assert!(s43_77("xx", "x"), "s43_77");
    assert!(c43_78(), "c43_78");
    assert!(s43_78("xx", "b:"), "s43_78");
    assert!(c43_79(), "c43_79");
    assert!(s43_79("xx", "zz"), "s43_79");
    assert!(c44_0(), "c44_0");
    assert!(s44_0("", "a"), "s44_0");
    assert!(c44_1(), "c44_1");
    assert!(s44_1("", ":"), "s44_1");
    assert!(c44_2(), "c44_2");
    assert!(s44_2("", "x"), "s44_2");
    assert!(c44_3(), "c44_3");
    assert!(s44_3("", "b:"), "s44_3");
    assert!(c44_4(), "c44_4");
    assert!(s44_4("", "zz"), "s44_4");
    assert!(c44_5(), "c44_5");
    assert!(s44_5("a", "a"), "s44_5");
    assert!(c44_6(), "c44_6");
    assert!(s44_6("a", ":"), "s44_6");
    assert!(c44_7(), "c44_7");
    assert!(s44_7("a", "x"), "s44_7");
    assert!(c44_8(), "c44_8");
    assert!(s44_8("a", "b:"), "s44_8");
    assert!(c44_9(), "c44_9");
    assert!(s44_9("a", "zz"), "s44_9");
    assert!(c44_10(), "c44_10");
    assert!(s44_10("abc", "a"), "s44_10");
    assert!(c44_11(), "c44_11");
    assert!(s44_11("abc", ":"), "s44_11");
    assert!(c44_12(), "c44_12");
    assert!(s44_12("abc", "x"), "s44_12");
    assert!(c44_13(), "c44_13");
    assert!(s44_13("abc", "b:"), "s44_13");
    assert!(c44_14(), "c44_14");
    assert!(s44_14("abc", "zz"), "s44_14");
    assert!(c44_15(), "c44_15");
    assert!(s44_15("%a1", "a"), "s44_15");
    assert!(c44_16(), "c44_16");
    assert!(s44_16("%a1", ":"), "s44_16");
    assert!(c44_17(), "c44_17");
    assert!(s44_17("%a1", "x"), "s44_17");
    assert!(c44_18(), "c44_18");
    assert!(s44_18("%a1", "b:"), "s44_18");
    assert!(c44_19(), "c44_19");
    assert!(s44_19("%a1", "zz"), "s44_19");
    assert!(c44_20(), "c44_20");
    assert!(s44_20("\u{e9}%x", "a"), "s44_20");
    assert!(c44_21(), "c44_21");
    assert!(s44_21("\u{e9}%x", ":"), "s44_21");
    assert!(c44_22(), "c44_22");
    assert!(s44_22("\u{e9}%x", "x"), "s44_22");
    assert!(c44_23(), "c44_23");
    assert!(s44_23("\u{e9}%x", "b:"), "s44_23");
    assert!(c44_24(), "c44_24");
    assert!(s44_24("\u{e9}%x", "zz"), "s44_24");
    assert!(c44_25(), "c44_25");
    assert!(s44_25("a:b:c", "a"), "s44_25");
    assert!(c44_26(), "c44_26");
    assert!(s44_26("a:b:c", ":"), "s44_26");
    assert!(c44_27(), "c44_27");
    assert!(s44_27("a:b:c", "x"), "s44_27");
    assert!(c44_28(), "c44_28");
    assert!(s44_28("a:b:c", "b:"), "s44_28");
    assert!(c44_29(), "c44_29");
    assert!(s44_29("a:b:c", "zz"), "s44_29");
    assert!(c44_30(), "c44_30");
    assert!(s44_30("::", "a"), "s44_30");
    assert!(c44_31(), "c44_31");
    assert!(s44_31("::", ":"), "s44_31");
    assert!(c44_32(), "c44_32");
    assert!(s44_32("::", "x"), "s44_32");
    assert!(c44_33(), "c44_33");
    assert!(s44_33("::", "b:"), "s44_33");
    assert!(c44_34(), "c44_34");
    assert!(s44_34("::", "zz"), "s44_34");
    assert!(c44_35(), "c44_35");
    assert!(s44_35("  x ", "a"), "s44_35");
    assert!(c44_36(), "c44_36");
    assert!(s44_36("  x ", ":"), "s44_36");
    assert!(c44_37(), "c44_37");
    assert!(s44_37("  x ", "x"), "s44_37");
    assert!(c44_38(), "c44_38");
    assert!(s44_38("  x ", "b:"), "s44_38");
    assert!(c44_39(), "c44_39");
    assert!(s44_39("  x ", "zz"), "s44_39");
    assert!(c44_40(), "c44_40");
    assert!(s44_40("12", "a"), "s44_40");
    assert!(c44_41(), "c44_41");
    assert!(s44_41("12", ":"), "s44_41");
    assert!(c44_42(), "c44_42");
    assert!(s44_42("12", "x"), "s44_42");
    assert!(c44_43(), "c44_43");
    assert!(s44_43("12", "b:"), "s44_43");
    assert!(c44_44(), "c44_44");
    assert!(s44_44("12", "zz"), "s44_44");
    assert!(c44_45(), "c44_45");
    assert!(s44_45("-5", "a"), "s44_45");
    assert!(c44_46(), "c44_46");
    assert!(s44_46("-5", ":"), "s44_46");
    assert!(c44_47(), "c44_47");
    assert!(s44_47("-5", "x"), "s44_47");
    assert!(c44_48(), "c44_48");
    assert!(s44_48("-5", "b:"), "s44_48");
    assert!(c44_49(), "c44_49");
    assert!(s44_49("-5", "zz"), "s44_49");
    assert!(c44_50(), "c44_50");
    assert!(s44_50("+7", "a"), "s44_50");
    assert!(c44_51(), "c44_51");
    assert!(s44_51("+7", ":"), "s44_51");
    assert!(c44_52(), "c44_52");
    assert!(s44_52("+7", "x"), "s44_52");
    assert!(c44_53(), "c44_53");
    assert!(s44_53("+7", "b:"), "s44_53");
    assert!(c44_54(), "c44_54");
    assert!(s44_54("+7", "zz"), "s44_54");
    assert!(c44_55(), "c44_55");
    assert!(s44_55("99999999999999999999", "a"), "s44_55");
    assert!(c44_56(), "c44_56");
    assert!(s44_56("99999999999999999999", ":"), "s44_56");
    assert!(c44_57(), "c44_57");
    assert!(s44_57("99999999999999999999", "x"), "s44_57");
    assert!(c44_58(), "c44_58");
    assert!(s44_58("99999999999999999999", "b:"), "s44_58");
    assert!(c44_59(), "c44_59");
    assert!(s44_59("99999999999999999999", "zz"), "s44_59");
    assert!(c44_60(), "c44_60");
    assert!(s44_60("a\u{a}b\u{d}\u{a}c", "a"), "s44_60");
    assert!(c44_61(), "c44_61");
    assert!(s44_61("a\u{a}b\u{d}\u{a}c", ":"), "s44_61");
    assert!(c44_62(), "c44_62");
    assert!(s44_62("a\u{a}b\u{d}\u{a}c", "x"), "s44_62");
    assert!(c44_63(), "c44_63");
    assert!(s44_63("a\u{a}b\u{d}\u{a}c", "b:"), "s44_63");
    assert!(c44_64(), "c44_64");
    assert!(s44_64("a\u{a}b\u{d}\u{a}c", "zz"), "s44_64");
    assert!(c44_65(), "c44_65");
    assert!(s44_65("\u{65e5}\u{672c}", "a"), "s44_65");
    assert!(c44_66(), "c44_66");
    assert!(s44_66("\u{65e5}\u{672c}", ":"), "s44_66");
    assert!(c44_67(), "c44_67");
    assert!(s44_67("\u{65e5}\u{672c}", "x"), "s44_67");
    assert!(c44_68(), "c44_68");
    assert!(s44_68("\u{65e5}\u{672c}", "b:"), "s44_68");
    assert!(c44_69(), "c44_69");
    assert!(s44_69("\u{65e5}\u{672c}", "zz"), "s44_69");
    assert!(c44_70(), "c44_70");
    assert!(s44_70("\u{1f600}z", "a"), "s44_70");
    assert!(c44_71(), "c44_71");
    assert!(s44_71("\u{1f600}z", ":"), "s44_71");
    assert!(c44_72(), "c44_72");
    assert!(s44_72("\u{1f600}z", "x"), "s44_72");
    assert!(c44_73(), "c44_73");
    assert!(s44_73("\u{1f600}z", "b:"), "s44_73");
    assert!(c44_74(), "c44_74");
    assert!(s44_74("\u{1f600}z", "zz"), "s44_74");
    assert!(c44_75(), "c44_75");
    assert!(s44_75("xx", "a"), "s44_75");
    assert!(c44_76(), "c44_76");
    assert!(s44_76("xx", ":"), "s44_76");
    assert!(c44_77(), "c44_77");
    assert!(s44_77("xx", "x"), "s44_77");
    assert!(c44_78(), "c44_78");
    assert!(s44_78("xx", "b:"), "s44_78");
    assert!(c44_79(), "c44_79");
    assert!(s44_79("xx", "zz"), "s44_79");
    assert!(c45_0(), "c45_0");
    assert!(s45_0(""), "s45_0");
    assert!(c45_1(), "c45_1");
    assert!(s45_1("a"), "s45_1");
    assert!(c45_2(), "c45_2");
    assert!(s45_2("abc"), "s45_2");
    assert!(c45_3(), "c45_3");
    assert!(s45_3("%a1"), "s45_3");
    assert!(c45_4(), "c45_4");
    assert!(s45_4("\u{e9}%x"), "s45_4");
    assert!(c45_5(), "c45_5");
    assert!(s45_5("a:b:c"), "s45_5");
    assert!(c45_6(), "c45_6");
    assert!(s45_6("::"), "s45_6");
    assert!(c45_7(), "c45_7");
    assert!(s45_7("  x "), "s45_7");
    assert!(c45_8(), "c45_8");
    assert!(s45_8("12"), "s45_8");
    assert!(c45_9(), "c45_9");
    assert!(s45_9("-5"), "s45_9");
    assert!(c45_10(), "c45_10");
    assert!(s45_10("+7"), "s45_10");
    assert!(c45_11(), "c45_11");
    assert!(s45_11("99999999999999999999"), "s45_11");
    assert!(c45_12(), "c45_12");
    assert!(s45_12("a\u{a}b\u{d}\u{a}c"), "s45_12");
    assert!(c45_13(), "c45_13");
    assert!(s45_13("\u{65e5}\u{672c}"), "s45_13");
    assert!(c45_14(), "c45_14");
    assert!(s45_14("\u{1f600}z"), "s45_14");
    assert!(c45_15(), "c45_15");
    assert!(s45_15("xx"), "s45_15");
    assert!(c46_0(), "c46_0");
    assert!(s46_0(""), "s46_0");
    assert!(c46_1(), "c46_1");
    assert!(s46_1("a"), "s46_1");
    assert!(c46_2(), "c46_2");
    assert!(s46_2("abc"), "s46_2");
    assert!(c46_3(), "c46_3");
    assert!(s46_3("%a1"), "s46_3");
    assert!(c46_4(), "c46_4");
    assert!(s46_4("\u{e9}%x"), "s46_4");
    assert!(c46_5(), "c46_5");
    assert!(s46_5("a:b:c"), "s46_5");
    assert!(c46_6(), "c46_6");
    assert!(s46_6("::"), "s46_6");
    assert!(c46_7(), "c46_7");
    assert!(s46_7("  x "), "s46_7");
    assert!(c46_8(), "c46_8");
    assert!(s46_8("12"), "s46_8");
    assert!(c46_9(), "c46_9");
    assert!(s46_9("-5"), "s46_9");
    assert!(c46_10(), "c46_10");
    assert!(s46_10("+7"), "s46_10");
    assert!(c46_11(), "c46_11");
    assert!(s46_11("99999999999999999999"), "s46_11");
    assert!(c46_12(), "c46_12");
    assert!(s46_12("a\u{a}b\u{d}\u{a}c"), "s46_12");
    assert!(c46_13(), "c46_13");
    assert!(s46_13("\u{65e5}\u{672c}"), "s46_13");
    assert!(c46_14(), "c46_14");
    assert!(s46_14("\u{1f600}z"), "s46_14");
    assert!(c46_15(), "c46_15");
    assert!(s46_15("xx"), "s46_15");
    assert!(c47_0(), "c47_0");
    assert!(s47_0(""), "s47_0");
    assert!(c47_1(), "c47_1");
    assert!(s47_1("a"), "s47_1");
    assert!(c47_2(), "c47_2");
    assert!(s47_2("abc"), "s47_2");
    assert!(c47_3(), "c47_3");
    assert!(s47_3("%a1"), "s47_3");
    assert!(c47_4(), "c47_4");
    assert!(s47_4("\u{e9}%x"), "s47_4");
    assert!(c47_5(), "c47_5");
    assert!(s47_5("a:b:c"), "s47_5");
    assert!(c47_6(), "c47_6");
    assert!(s47_6("::"), "s47_6");
    assert!(c47_7(), "c47_7");
    assert!(s47_7("  x "), "s47_7");
    assert!(c47_8(), "c47_8");
    assert!(s47_8("12"), "s47_8");
    assert!(c47_9(), "c47_9");
    assert!(s47_9("-5"), "s47_9");
    assert!(c47_10(), "c47_10");
    assert!(s47_10("+7"), "s47_10");
    assert!(c47_11(), "c47_11");
    assert!(s47_11("99999999999999999999"), "s47_11");
    assert!(c47_12(), "c47_12");
    assert!(s47_12("a\u{a}b\u{d}\u{a}c"), "s47_12");
    assert!(c47_13(), "c47_13");
    assert!(s47_13("\u{65e5}\u{672c}"), "s47_13");
    assert!(c47_14(), "c47_14");
    assert!(s47_14("\u{1f600}z"), "s47_14");
    assert!(c47_15(), "c47_15");
    assert!(s47_15("xx"), "s47_15");
    assert!(c48_0(), "c48_0");
    assert!(s48_0(""), "s48_0");
    assert!(c48_1(), "c48_1");
    assert!(s48_1("a"), "s48_1");
    assert!(c48_2(), "c48_2");
    assert!(s48_2("abc"), "s48_2");
    assert!(c48_3(), "c48_3");
    assert!(s48_3("%a1"), "s48_3");
    assert!(c48_4(), "c48_4");
    assert!(s48_4("\u{e9}%x"), "s48_4");
    assert!(c48_5(), "c48_5");
    assert!(s48_5("a:b:c"), "s48_5");
    assert!(c48_6(), "c48_6");
    assert!(s48_6("::"), "s48_6");
    assert!(c48_7(), "c48_7");
    assert!(s48_7("  x "), "s48_7");
    assert!(c48_8(), "c48_8");
    assert!(s48_8("12"), "s48_8");
    assert!(c48_9(), "c48_9");
    assert!(s48_9("-5"), "s48_9");
    assert!(c48_10(), "c48_10");
    assert!(s48_10("+7"), "s48_10");
    assert!(c48_11(), "c48_11");
    assert!(s48_11("99999999999999999999"), "s48_11");
    assert!(c48_12(), "c48_12");
    assert!(s48_12("a\u{a}b\u{d}\u{a}c"), "s48_12");
    assert!(c48_13(), "c48_13");
    assert!(s48_13("\u{65e5}\u{672c}"), "s48_13");
    assert!(c48_14(), "c48_14");
    assert!(s48_14("\u{1f600}z"), "s48_14");
    assert!(c48_15(), "c48_15");
    assert!(s48_15("xx"), "s48_15");
    assert!(c49_0(), "c49_0");
    assert!(s49_0(""), "s49_0");
    assert!(c49_1(), "c49_1");
    assert!(s49_1("a"), "s49_1");
    assert!(c49_2(), "c49_2");
    assert!(s49_2("abc"), "s49_2");
    assert!(c49_3(), "c49_3");
    assert!(s49_3("%a1"), "s49_3");
    assert!(c49_4(), "c49_4");
    assert!(s49_4("\u{e9}%x"), "s49_4");
    assert!(c49_5(), "c49_5");
    assert!(s49_5("a:b:c"), "s49_5");
    assert!(c49_6(), "c49_6");
    assert!(s49_6("::"), "s49_6");
    assert!(c49_7(), "c49_7");
    assert!(s49_7("  x "), "s49_7");
    assert!(c49_8(), "c49_8");
    assert!(s49_8("12"), "s49_8");
    assert!(c49_9(), "c49_9");
    assert!(s49_9("-5"), "s49_9");
    assert!(c49_10(), "c49_10");
    assert!(s49_10("+7"), "s49_10");
    assert!(c49_11(), "c49_11");
    assert!(s49_11("99999999999999999999"), "s49_11");
    assert!(c49_12(), "c49_12");
    assert!(s49_12("a\u{a}b\u{d}\u{a}c"), "s49_12");
    assert!(c49_13(), "c49_13");
    assert!(s49_13("\u{65e5}\u{672c}"), "s49_13");
    assert!(c49_14(), "c49_14");
    assert!(s49_14("\u{1f600}z"), "s49_14");
    assert!(c49_15(), "c49_15");
    assert!(s49_15("xx"), "s49_15");
    assert!(c50_0(), "c50_0");
    assert!(s50_0(""), "s50_0");
    assert!(c50_1(), "c50_1");
    assert!(s50_1("a"), "s50_1");
    assert!(c50_2(), "c50_2");
    assert!(s50_2("abc"), "s50_2");
    assert!(c50_3(), "c50_3");
    assert!(s50_3("%a1"), "s50_3");
    assert!(c50_4(), "c50_4");
    assert!(s50_4("\u{e9}%x"), "s50_4");
    assert!(c50_5(), "c50_5");
    assert!(s50_5("a:b:c"), "s50_5");
    assert!(c50_6(), "c50_6");
    assert!(s50_6("::"), "s50_6");
    assert!(c50_7(), "c50_7");
    assert!(s50_7("  x "), "s50_7");
    assert!(c50_8(), "c50_8");
    assert!(s50_8("12"), "s50_8");
    assert!(c50_9(), "c50_9");
    assert!(s50_9("-5"), "s50_9");
    assert!(c50_10(), "c50_10");
    assert!(s50_10("+7"), "s50_10");
    assert!(c50_11(), "c50_11");
    assert!(s50_11("99999999999999999999"), "s50_11");
    assert!(c50_12(), "c50_12");
    assert!(s50_12("a\u{a}b\u{d}\u{a}c"), "s50_12");
    assert!(c50_13(), "c50_13");
    assert!(s50_13("\u{65e5}\u{672c}"), "s50_13");
    assert!(c50_14(), "c50_14");
    assert!(s50_14("\u{1f600}z"), "s50_14");
    assert!(c50_15(), "c50_15");
    assert!(s50_15("xx"), "s50_15");
    assert!(c51_0(), "c51_0");
    assert!(s51_0(""), "s51_0");
    assert!(c51_1(), "c51_1");
    assert!(s51_1("a"), "s51_1");
    assert!(c51_2(), "c51_2");
    assert!(s51_2("abc"), "s51_2");
    assert!(c51_3(), "c51_3");
    assert!(s51_3("%a1"), "s51_3");
    assert!(c51_4(), "c51_4");
    assert!(s51_4("\u{e9}%x"), "s51_4");
    assert!(c51_5(), "c51_5");
    assert!(s51_5("a:b:c"), "s51_5");
    assert!(c51_6(), "c51_6");
    assert!(s51_6("::"), "s51_6");
    assert!(c51_7(), "c51_7");
    assert!(s51_7("  x "), "s51_7");
    assert!(c51_8(), "c51_8");
    assert!(s51_8("12"), "s51_8");
    assert!(c51_9(), "c51_9");
    assert!(s51_9("-5"), "s51_9");
    assert!(c51_10(), "c51_10");
    assert!(s51_10("+7"), "s51_10");
    assert!(c51_11(), "c51_11");
    assert!(s51_11("99999999999999999999"), "s51_11");
    assert!(c51_12(), "c51_12");
    assert!(s51_12("a\u{a}b\u{d}\u{a}c"), "s51_12");
    assert!(c51_13(), "c51_13");
    assert!(s51_13("\u{65e5}\u{672c}"), "s51_13");
    assert!(c51_14(), "c51_14");
    assert!(s51_14("\u{1f600}z"), "s51_14");
    assert!(c51_15(), "c51_15");
    assert!(s51_15("xx"), "s51_15");
    assert!(c52_0(), "c52_0");
    assert!(s52_0(""), "s52_0");
    assert!(c52_1(), "c52_1");
    assert!(s52_1("a"), "s52_1");
    assert!(c52_2(), "c52_2");
    assert!(s52_2("abc"), "s52_2");
    assert!(c52_3(), "c52_3");
    assert!(s52_3("%a1"), "s52_3");
    assert!(c52_4(), "c52_4");
    assert!(s52_4("\u{e9}%x"), "s52_4");
    assert!(c52_5(), "c52_5");
    assert!(s52_5("a:b:c"), "s52_5");
    assert!(c52_6(), "c52_6");
    assert!(s52_6("::"), "s52_6");
    assert!(c52_7(), "c52_7");
    assert!(s52_7("  x "), "s52_7");
    assert!(c52_8(), "c52_8");
    assert!(s52_8("12"), "s52_8");
    assert!(c52_9(), "c52_9");
    assert!(s52_9("-5"), "s52_9");
    assert!(c52_10(), "c52_10");
    assert!(s52_10("+7"), "s52_10");
    assert!(c52_11(), "c52_11");
    assert!(s52_11("99999999999999999999"), "s52_11");
    assert!(c52_12(), "c52_12");
    assert!(s52_12("a\u{a}b\u{d}\u{a}c"), "s52_12");
    assert!(c52_13(), "c52_13");
    assert!(s52_13("\u{65e5}\u{672c}"), "s52_13");
    assert!(c52_14(), "c52_14");
    assert!(s52_14("\u{1f600}z"), "s52_14");
    assert!(c52_15(), "c52_15");
    assert!(s52_15("xx"), "s52_15");
    assert!(c53_0(), "c53_0");
    assert!(s53_0(""), "s53_0");
    assert!(c53_1(), "c53_1");
    assert!(s53_1("a"), "s53_1");
    assert!(c53_2(), "c53_2");
    assert!(s53_2("abc"), "s53_2");
    assert!(c53_3(), "c53_3");
    assert!(s53_3("%a1"), "s53_3");
    assert!(c53_4(), "c53_4");
    assert!(s53_4("\u{e9}%x"), "s53_4");
    assert!(c53_5(), "c53_5");
    assert!(s53_5("a:b:c"), "s53_5");
    assert!(c53_6(), "c53_6");
    assert!(s53_6("::"), "s53_6");
    assert!(c53_7(), "c53_7");
    assert!(s53_7("  x "), "s53_7");
    assert!(c53_8(), "c53_8");
    assert!(s53_8("12"), "s53_8");
    assert!(c53_9(), "c53_9");
    assert!(s53_9("-5"), "s53_9");
    assert!(c53_10(), "c53_10");
    assert!(s53_10("+7"), "s53_10");
    assert!(c53_11(), "c53_11");
    assert!(s53_11("99999999999999999999"), "s53_11");
    assert!(c53_12(), "c53_12");
    assert!(s53_12("a\u{a}b\u{d}\u{a}c"), "s53_12");
    assert!(c53_13(), "c53_13");
    assert!(s53_13("\u{65e5}\u{672c}"), "s53_13");
    assert!(c53_14(), "c53_14");
    assert!(s53_14("\u{1f600}z"), "s53_14");
    assert!(c53_15(), "c53_15");
    assert!(s53_15("xx"), "s53_15");
    assert!(c54_0(), "c54_0");
    assert!(s54_0(""), "s54_0");
    assert!(c54_1(), "c54_1");
    assert!(s54_1("a"), "s54_1");
    assert!(c54_2(), "c54_2");
    assert!(s54_2("abc"), "s54_2");
    assert!(c54_3(), "c54_3");
    assert!(s54_3("%a1"), "s54_3");
    assert!(c54_4(), "c54_4");
    assert!(s54_4("\u{e9}%x"), "s54_4");
    assert!(c54_5(), "c54_5");
    assert!(s54_5("a:b:c"), "s54_5");
    assert!(c54_6(), "c54_6");
    assert!(s54_6("::"), "s54_6");
    assert!(c54_7(), "c54_7");
    assert!(s54_7("  x "), "s54_7");
    assert!(c54_8(), "c54_8");
    assert!(s54_8("12"), "s54_8");
    assert!(c54_9(), "c54_9");
    assert!(s54_9("-5"), "s54_9");
    assert!(c54_10(), "c54_10");
    assert!(s54_10("+7"), "s54_10");
    assert!(c54_11(), "c54_11");
    assert!(s54_11("99999999999999999999"), "s54_11");
    assert!(c54_12(), "c54_12");
    assert!(s54_12("a\u{a}b\u{d}\u{a}c"), "s54_12");
    assert!(c54_13(), "c54_13");
    assert!(s54_13("\u{65e5}\u{672c}"), "s54_13");
    assert!(c54_14(), "c54_14");
    assert!(s54_14("\u{1f600}z"), "s54_14");
    assert!(c54_15(), "c54_15");
    assert!(s54_15("xx"), "s54_15");
    assert!(c55_0(), "c55_0");
    assert!(s55_0(""), "s55_0");
    assert!(c55_1(), "c55_1");
    assert!(s55_1("a"), "s55_1");
    assert!(c55_2(), "c55_2");
    assert!(s55_2("abc"), "s55_2");
    assert!(c55_3(), "c55_3");
    assert!(s55_3("%a1"), "s55_3");
    assert!(c55_4(), "c55_4");
    assert!(s55_4("\u{e9}%x"), "s55_4");
    assert!(c55_5(), "c55_5");
    assert!(s55_5("a:b:c"), "s55_5");
    assert!(c55_6(), "c55_6");
    assert!(s55_6("::"), "s55_6");
    assert!(c55_7(), "c55_7");
    assert!(s55_7("  x "), "s55_7");
    assert!(c55_8(), "c55_8");
    assert!(s55_8("12"), "s55_8");
    assert!(c55_9(), "c55_9");
    assert!(s55_9("-5"), "s55_9");
    assert!(c55_10(), "c55_10");
    assert!(s55_10("+7"), "s55_10");
    assert!(c55_11(), "c55_11");
    assert!(s55_11("99999999999999999999"), "s55_11");
    assert!(c55_12(), "c55_12");
    assert!(s55_12("a\u{a}b\u{d}\u{a}c"), "s55_12");
    assert!(c55_13(), "c55_13");
    assert!(s55_13("\u{65e5}\u{672c}"), "s55_13");
    assert!(c55_14(), "c55_14");
    assert!(s55_14("\u{1f600}z"), "s55_14");
    assert!(c55_15(), "c55_15");
    assert!(s55_15("xx"), "s55_15");
    assert!(c56_0(), "c56_0");
    assert!(s56_0(""), "s56_0");
    assert!(c56_1(), "c56_1");
    assert!(s56_1("a"), "s56_1");
    assert!(c56_2(), "c56_2");
    assert!(s56_2("abc"), "s56_2");
    assert!(c56_3(), "c56_3");
    assert!(s56_3("%a1"), "s56_3");
    assert!(c56_4(), "c56_4");
    assert!(s56_4("\u{e9}%x"), "s56_4");
    assert!(c56_5(), "c56_5");
    assert!(s56_5("a:b:c"), "s56_5");
    assert!(c56_6(), "c56_6");
    assert!(s56_6("::"), "s56_6");
    assert!(c56_7(), "c56_7");
    assert!(s56_7("  x "), "s56_7");
    assert!(c56_8(), "c56_8");
    assert!(s56_8("12"), "s56_8");
    assert!(c56_9(), "c56_9");
    assert!(s56_9("-5"), "s56_9");
    assert!(c56_10(), "c56_10");
    assert!(s56_10("+7"), "s56_10");
    assert!(c56_11(), "c56_11");
    assert!(s56_11("99999999999999999999"), "s56_11");
    assert!(c56_12(), "c56_12");
    assert!(s56_12("a\u{a}b\u{d}\u{a}c"), "s56_12");
    assert!(c56_13(), "c56_13");
    assert!(s56_13("\u{65e5}\u{672c}"), "s56_13");
    assert!(c56_14(), "c56_14");
    assert!(s56_14("\u{1f600}z"), "s56_14");
    assert!(c56_15(), "c56_15");
    assert!(s56_15("xx"), "s56_15");
    assert!(c57_0(), "c57_0");
    assert!(s57_0(""), "s57_0");
    assert!(c57_1(), "c57_1");
    assert!(s57_1("a"), "s57_1");
    assert!(c57_2(), "c57_2");
    assert!(s57_2("abc"), "s57_2");
    assert!(c57_3(), "c57_3");
    assert!(s57_3("%a1"), "s57_3");
    assert!(c57_4(), "c57_4");
    assert!(s57_4("\u{e9}%x"), "s57_4");
    assert!(c57_5(), "c57_5");
    assert!(s57_5("a:b:c"), "s57_5");
    assert!(c57_6(), "c57_6");
    assert!(s57_6("::"), "s57_6");
    assert!(c57_7(), "c57_7");
    assert!(s57_7("  x "), "s57_7");
    assert!(c57_8(), "c57_8");
    assert!(s57_8("12"), "s57_8");
    assert!(c57_9(), "c57_9");
    assert!(s57_9("-5"), "s57_9");
    assert!(c57_10(), "c57_10");
    assert!(s57_10("+7"), "s57_10");
    assert!(c57_11(), "c57_11");
    assert!(s57_11("99999999999999999999"), "s57_11");
    assert!(c57_12(), "c57_12");
    assert!(s57_12("a\u{a}b\u{d}\u{a}c"), "s57_12");
    assert!(c57_13(), "c57_13");
    assert!(s57_13("\u{65e5}\u{672c}"), "s57_13");
    assert!(c57_14(), "c57_14");
    assert!(s57_14("\u{1f600}z"), "s57_14");
    assert!(c57_15(), "c57_15");
    assert!(s57_15("xx"), "s57_15");
    assert!(c58_0(), "c58_0");
    assert!(s58_0(""), "s58_0");
    assert!(c58_1(), "c58_1");
    assert!(s58_1("a"), "s58_1");
    assert!(c58_2(), "c58_2");
    assert!(s58_2("abc"), "s58_2");
    assert!(c58_3(), "c58_3");
    assert!(s58_3("%a1"), "s58_3");
    assert!(c58_4(), "c58_4");
    assert!(s58_4("\u{e9}%x"), "s58_4");
    assert!(c58_5(), "c58_5");
    assert!(s58_5("a:b:c"), "s58_5");
    assert!(c58_6(), "c58_6");
    assert!(s58_6("::"), "s58_6");
    assert!(c58_7(), "c58_7");
    assert!(s58_7("  x "), "s58_7");
    assert!(c58_8(), "c58_8");
    assert!(s58_8("12"), "s58_8");
    assert!(c58_9(), "c58_9");
    assert!(s58_9("-5"), "s58_9");
    assert!(c58_10(), "c58_10");
    assert!(s58_10("+7"), "s58_10");
    assert!(c58_11(), "c58_11");
    assert!(s58_11("99999999999999999999"), "s58_11");
    assert!(c58_12(), "c58_12");
    assert!(s58_12("a\u{a}b\u{d}\u{a}c"), "s58_12");
    assert!(c58_13(), "c58_13");
    assert!(s58_13("\u{65e5}\u{672c}"), "s58_13");
    assert!(c58_14(), "c58_14");
    assert!(s58_14("\u{1f600}z"), "s58_14");
    assert!(c58_15(), "c58_15");
    assert!(s58_15("xx"), "s58_15");
    assert!(c59_0(), "c59_0");
    assert!(s59_0(""), "s59_0");
    assert!(c59_1(), "c59_1");
    assert!(s59_1("a"), "s59_1");
    assert!(c59_2(), "c59_2");
    assert!(s59_2("abc"), "s59_2");
    assert!(c59_3(), "c59_3");
    assert!(s59_3("%a1"), "s59_3");
    assert!(c59_4(), "c59_4");
    assert!(s59_4("\u{e9}%x"), "s59_4");
    assert!(c59_5(), "c59_5");
    assert!(s59_5("a:b:c"), "s59_5");
    assert!(c59_6(), "c59_6");
    assert!(s59_6("::"), "s59_6");
    assert!(c59_7(), "c59_7");
    assert!(s59_7("  x "), "s59_7");
    assert!(c59_8(), "c59_8");
    assert!(s59_8("12"), "s59_8");
    assert!(c59_9(), "c59_9");
    assert!(s59_9("-5"), "s59_9");
    assert!(c59_10(), "c59_10");
    assert!(s59_10("+7"), "s59_10");
    assert!(c59_11(), "c59_11");
    assert!(s59_11("99999999999999999999"), "s59_11");
    assert!(c59_12(), "c59_12");
    assert!(s59_12("a\u{a}b\u{d}\u{a}c"), "s59_12");
    assert!(c59_13(), "c59_13");
    assert!(s59_13("\u{65e5}\u{672c}"), "s59_13");
    assert!(c59_14(), "c59_14");
    assert!(s59_14("\u{1f600}z"), "s59_14");
    assert!(c59_15(), "c59_15");
    assert!(s59_15("xx"), "s59_15");
    assert!(c60_0(), "c60_0");
    assert!(s60_0(""), "s60_0");
    assert!(c60_1(), "c60_1");
    assert!(s60_1("a"), "s60_1");
    assert!(c60_2(), "c60_2");
    assert!(s60_2("abc"), "s60_2");
    assert!(c60_3(), "c60_3");
    assert!(s60_3("%a1"), "s60_3");
    assert!(c60_4(), "c60_4");
    assert!(s60_4("\u{e9}%x"), "s60_4");
    assert!(c60_5(), "c60_5");
    assert!(s60_5("a:b:c"), "s60_5");
    assert!(c60_6(), "c60_6");
    assert!(s60_6("::"), "s60_6");
    assert!(c60_7(), "c60_7");
    assert!(s60_7("  x "), "s60_7");
    assert!(c60_8(), "c60_8");
    assert!(s60_8("12"), "s60_8");
    assert!(c60_9(), "c60_9");
    assert!(s60_9("-5"), "s60_9");
    assert!(c60_10(), "c60_10");
    assert!(s60_10("+7"), "s60_10");
    assert!(c60_11(), "c60_11");
    assert!(s60_11("99999999999999999999"), "s60_11");
    assert!(c60_12(), "c60_12");
    assert!(s60_12("a\u{a}b\u{d}\u{a}c"), "s60_12");
    assert!(c60_13(), "c60_13");
    assert!(s60_13("\u{65e5}\u{672c}"), "s60_13");
    assert!(c60_14(), "c60_14");
    assert!(s60_14("\u{1f600}z"), "s60_14");
    assert!(c60_15(), "c60_15");
    assert!(s60_15("xx"), "s60_15");
    assert!(c61_0(), "c61_0");
    assert!(s61_0(""), "s61_0");
    assert!(c61_1(), "c61_1");
    assert!(s61_1("a"), "s61_1");
    assert!(c61_2(), "c61_2");
    assert!(s61_2("abc"), "s61_2");
    assert!(c61_3(), "c61_3");
    assert!(s61_3("%a1"), "s61_3");
    assert!(c61_4(), "c61_4");
    assert!(s61_4("\u{e9}%x"), "s61_4");
    assert!(c61_5(), "c61_5");
    assert!(s61_5("a:b:c"), "s61_5");
    assert!(c61_6(), "c61_6");
    assert!(s61_6("::"), "s61_6");
    assert!(c61_7(), "c61_7");
    assert!(s61_7("  x "), "s61_7");
    assert!(c61_8(), "c61_8");
    assert!(s61_8("12"), "s61_8");
    assert!(c61_9(), "c61_9");
    assert!(s61_9("-5"), "s61_9");
    assert!(c61_10(), "c61_10");
    assert!(s61_10("+7"), "s61_10");
    assert!(c61_11(), "c61_11");
    assert!(s61_11("99999999999999999999"), "s61_11");
    assert!(c61_12(), "c61_12");
    assert!(s61_12("a\u{a}b\u{d}\u{a}c"), "s61_12");
    assert!(c61_13(), "c61_13");
    assert!(s61_13("\u{65e5}\u{672c}"), "s61_13");
    assert!(c61_14(), "c61_14");
    assert!(s61_14("\u{1f600}z"), "s61_14");
    assert!(c61_15(), "c61_15");
    assert!(s61_15("xx"), "s61_15");
    assert!(c62_0(), "c62_0");
    assert!(s62_0(""), "s62_0");
    assert!(c62_1(), "c62_1");
    assert!(s62_1("a"), "s62_1");
    assert!(c62_2(), "c62_2");
    assert!(s62_2("abc"), "s62_2");
    assert!(c62_3(), "c62_3");
    assert!(s62_3("%a1"), "s62_3");
    assert!(c62_4(), "c62_4");
    assert!(s62_4("\u{e9}%x"), "s62_4");
    assert!(c62_5(), "c62_5");
    assert!(s62_5("a:b:c"), "s62_5");
    assert!(c62_6(), "c62_6");
    assert!(s62_6("::"), "s62_6");
    assert!(c62_7(), "c62_7");
    assert!(s62_7("  x "), "s62_7");
    assert!(c62_8(), "c62_8");
    assert!(s62_8("12"), "s62_8");
    assert!(c62_9(), "c62_9");
    assert!(s62_9("-5"), "s62_9");
    assert!(c62_10(), "c62_10");
    assert!(s62_10("+7"), "s62_10");
    assert!(c62_11(), "c62_11");
    assert!(s62_11("99999999999999999999"), "s62_11");
    assert!(c62_12(), "c62_12");
    assert!(s62_12("a\u{a}b\u{d}\u{a}c"), "s62_12");
    assert!(c62_13(), "c62_13");
    assert!(s62_13("\u{65e5}\u{672c}"), "s62_13");
    assert!(c62_14(), "c62_14");
    assert!(s62_14("\u{1f600}z"), "s62_14");
    assert!(c62_15(), "c62_15");
    assert!(s62_15("xx"), "s62_15");
    assert!(c63_0(), "c63_0");
    assert!(s63_0(""), "s63_0");
    assert!(c63_1(), "c63_1");
    assert!(s63_1("a"), "s63_1");
    assert!(c63_2(), "c63_2");
    assert!(s63_2("abc"), "s63_2");
    assert!(c63_3(), "c63_3");
    assert!(s63_3("%a1"), "s63_3");
    assert!(c63_4(), "c63_4");
    assert!(s63_4("\u{e9}%x"), "s63_4");
    assert!(c63_5(), "c63_5");
    assert!(s63_5("a:b:c"), "s63_5");
    assert!(c63_6(), "c63_6");
    assert!(s63_6("::"), "s63_6");
    assert!(c63_7(), "c63_7");
    assert!(s63_7("  x "), "s63_7");
    assert!(c63_8(), "c63_8");
    assert!(s63_8("12"), "s63_8");
    assert!(c63_9(), "c63_9");
    assert!(s63_9("-5"), "s63_9");
    assert!(c63_10(), "c63_10");
    assert!(s63_10("+7"), "s63_10");
    assert!(c63_11(), "c63_11");
    assert!(s63_11("99999999999999999999"), "s63_11");
    assert!(c63_12(), "c63_12");
    assert!(s63_12("a\u{a}b\u{d}\u{a}c"), "s63_12");
    assert!(c63_13(), "c63_13");
    assert!(s63_13("\u{65e5}\u{672c}"), "s63_13");
    assert!(c63_14(), "c63_14");
    assert!(s63_14("\u{1f600}z"), "s63_14");
    assert!(c63_15(), "c63_15");
    assert!(s63_15("xx"), "s63_15");
    assert!(c64_0(), "c64_0");
    assert!(s64_0(""), "s64_0");
    assert!(c64_1(), "c64_1");
    assert!(s64_1("a"), "s64_1");
    assert!(c64_2(), "c64_2");
    assert!(s64_2("abc"), "s64_2");
    assert!(c64_3(), "c64_3");
    assert!(s64_3("%a1"), "s64_3");
    assert!(c64_4(), "c64_4");
    assert!(s64_4("\u{e9}%x"), "s64_4");
    assert!(c64_5(), "c64_5");
    assert!(s64_5("a:b:c"), "s64_5");
    assert!(c64_6(), "c64_6");
    assert!(s64_6("::"), "s64_6");
    assert!(c64_7(), "c64_7");
    assert!(s64_7("  x "), "s64_7");
    assert!(c64_8(), "c64_8");
    assert!(s64_8("12"), "s64_8");
    assert!(c64_9(), "c64_9");
    assert!(s64_9("-5"), "s64_9");
    assert!(c64_10(), "c64_10");
    assert!(s64_10("+7"), "s64_10");
    assert!(c64_11(), "c64_11");
    assert!(s64_11("99999999999999999999"), "s64_11");
    assert!(c64_12(), "c64_12");
    assert!(s64_12("a\u{a}b\u{d}\u{a}c"), "s64_12");
    assert!(c64_13(), "c64_13");
    assert!(s64_13("\u{65e5}\u{672c}"), "s64_13");
    assert!(c64_14(), "c64_14");
    assert!(s64_14("\u{1f600}z"), "s64_14");
    assert!(c64_15(), "c64_15");
    assert!(s64_15("xx"), "s64_15");
    assert!(c65_0(), "c65_0");
    assert!(s65_0(""), "s65_0");
    assert!(c65_1(), "c65_1");
    assert!(s65_1("a"), "s65_1");
    assert!(c65_2(), "c65_2");
    assert!(s65_2("abc"), "s65_2");
    assert!(c65_3(), "c65_3");
    assert!(s65_3("%a1"), "s65_3");
    assert!(c65_4(), "c65_4");
    assert!(s65_4("\u{e9}%x"), "s65_4");
    assert!(c65_5(), "c65_5");
    assert!(s65_5("a:b:c"), "s65_5");
    assert!(c65_6(), "c65_6");
    assert!(s65_6("::"), "s65_6");
    assert!(c65_7(), "c65_7");
    assert!(s65_7("  x "), "s65_7");
    assert!(c65_8(), "c65_8");
    assert!(s65_8("12"), "s65_8");
    assert!(c65_9(), "c65_9");
    assert!(s65_9("-5"), "s65_9");
    assert!(c65_10(), "c65_10");
    assert!(s65_10("+7"), "s65_10");
    assert!(c65_11(), "c65_11");
    assert!(s65_11("99999999999999999999"), "s65_11");
    assert!(c65_12(), "c65_12");
    assert!(s65_12("a\u{a}b\u{d}\u{a}c"), "s65_12");
    assert!(c65_13(), "c65_13");
    assert!(s65_13("\u{65e5}\u{672c}"), "s65_13");
    assert!(c65_14(), "c65_14");
    assert!(s65_14("\u{1f600}z"), "s65_14");
    assert!(c65_15(), "c65_15");
    assert!(s65_15("xx"), "s65_15");
    assert!(c66_0(), "c66_0");
    assert!(s66_0(""), "s66_0");
    assert!(c66_1(), "c66_1");
    assert!(s66_1("a"), "s66_1");
    assert!(c66_2(), "c66_2");
    assert!(s66_2("abc"), "s66_2");
    assert!(c66_3(), "c66_3");
    assert!(s66_3("%a1"), "s66_3");
    assert!(c66_4(), "c66_4");
    assert!(s66_4("\u{e9}%x"), "s66_4");
    assert!(c66_5(), "c66_5");
    assert!(s66_5("a:b:c"), "s66_5");
    assert!(c66_6(), "c66_6");
    assert!(s66_6("::"), "s66_6");
    assert!(c66_7(), "c66_7");
    assert!(s66_7("  x "), "s66_7");
    assert!(c66_8(), "c66_8");
    assert!(s66_8("12"), "s66_8");
    assert!(c66_9(), "c66_9");
    assert!(s66_9("-5"), "s66_9");
    assert!(c66_10(), "c66_10");
    assert!(s66_10("+7"), "s66_10");
    assert!(c66_11(), "c66_11");
    assert!(s66_11("99999999999999999999"), "s66_11");
    assert!(c66_12(), "c66_12");
    assert!(s66_12("a\u{a}b\u{d}\u{a}c"), "s66_12");
    assert!(c66_13(), "c66_13");
    assert!(s66_13("\u{65e5}\u{672c}"), "s66_13");
    assert!(c66_14(), "c66_14");
    assert!(s66_14("\u{1f600}z"), "s66_14");
    assert!(c66_15(), "c66_15");
    assert!(s66_15("xx"), "s66_15");
    assert!(c67_0(), "c67_0");
    assert!(s67_0(""), "s67_0");
    assert!(c67_1(), "c67_1");
    assert!(s67_1("a"), "s67_1");
    assert!(c67_2(), "c67_2");
    assert!(s67_2("abc"), "s67_2");
    assert!(c67_3(), "c67_3");
    assert!(s67_3("%a1"), "s67_3");
    assert!(c67_4(), "c67_4");
    assert!(s67_4("\u{e9}%x"), "s67_4");
    assert!(c67_5(), "c67_5");
    assert!(s67_5("a:b:c"), "s67_5");
    assert!(c67_6(), "c67_6");
    assert!(s67_6("::"), "s67_6");
    assert!(c67_7(), "c67_7");
    assert!(s67_7("  x "), "s67_7");
    assert!(c67_8(), "c67_8");
    assert!(s67_8("12"), "s67_8");
    assert!(c67_9(), "c67_9");
    assert!(s67_9("-5"), "s67_9");
    assert!(c67_10(), "c67_10");
    assert!(s67_10("+7"), "s67_10");
    assert!(c67_11(), "c67_11");
    assert!(s67_11("99999999999999999999"), "s67_11");
    assert!(c67_12(), "c67_12");
    assert!(s67_12("a\u{a}b\u{d}\u{a}c"), "s67_12");
    assert!(c67_13(), "c67_13");
    assert!(s67_13("\u{65e5}\u{672c}"), "s67_13");
    assert!(c67_14(), "c67_14");
    assert!(s67_14("\u{1f600}z"), "s67_14");
    assert!(c67_15(), "c67_15");
    assert!(s67_15("xx"), "s67_15");
    assert!(c68_0(), "c68_0");
    assert!(s68_0(""), "s68_0");
    assert!(c68_1(), "c68_1");
    assert!(s68_1("a"), "s68_1");
    assert!(c68_2(), "c68_2");
    assert!(s68_2("abc"), "s68_2");
    assert!(c68_3(), "c68_3");
    assert!(s68_3("%a1"), "s68_3");
    assert!(c68_4(), "c68_4");
    assert!(s68_4("\u{e9}%x"), "s68_4");
    assert!(c68_5(), "c68_5");
    assert!(s68_5("a:b:c"), "s68_5");
    assert!(c68_6(), "c68_6");
    assert!(s68_6("::"), "s68_6");
    assert!(c68_7(), "c68_7");
    assert!(s68_7("  x "), "s68_7");
    assert!(c68_8(), "c68_8");
    assert!(s68_8("12"), "s68_8");
    assert!(c68_9(), "c68_9");
    assert!(s68_9("-5"), "s68_9");
    assert!(c68_10(), "c68_10");
    assert!(s68_10("+7"), "s68_10");
    assert!(c68_11(), "c68_11");
    assert!(s68_11("99999999999999999999"), "s68_11");
    assert!(c68_12(), "c68_12");
    assert!(s68_12("a\u{a}b\u{d}\u{a}c"), "s68_12");
    assert!(c68_13(), "c68_13");
    assert!(s68_13("\u{65e5}\u{672c}"), "s68_13");
    assert!(c68_14(), "c68_14");
    assert!(s68_14("\u{1f600}z"), "s68_14");
    assert!(c68_15(), "c68_15");
    assert!(s68_15("xx"), "s68_15");
    assert!(c69_0(), "c69_0");
    assert!(s69_0(""), "s69_0");
    assert!(c69_1(), "c69_1");
    assert!(s69_1("a"), "s69_1");
    assert!(c69_2(), "c69_2");
    assert!(s69_2("abc"), "s69_2");
    assert!(c69_3(), "c69_3");
    assert!(s69_3("%a1"), "s69_3");
    assert!(c69_4(), "c69_4");
    assert!(s69_4("\u{e9}%x"), "s69_4");
    assert!(c69_5(), "c69_5");
    assert!(s69_5("a:b:c"), "s69_5");
    assert!(c69_6(), "c69_6");
    assert!(s69_6("::"), "s69_6");
    assert!(c69_7(), "c69_7");
    assert!(s69_7("  x "), "s69_7");
    assert!(c69_8(), "c69_8");
    assert!(s69_8("12"), "s69_8");
    assert!(c69_9(), "c69_9");
    assert!(s69_9("-5"), "s69_9");
    assert!(c69_10(), "c69_10");
    assert!(s69_10("+7"), "s69_10");
    assert!(c69_11(), "c69_11");
    assert!(s69_11("99999999999999999999"), "s69_11");
    assert!(c69_12(), "c69_12");
    assert!(s69_12("a\u{a}b\u{d}\u{a}c"), "s69_12");
    assert!(c69_13(), "c69_13");
    assert!(s69_13("\u{65e5}\u{672c}"), "s69_13");
    assert!(c69_14(), "c69_14");
    assert!(s69_14("\u{1f600}z"), "s69_14");
    assert!(c69_15(), "c69_15");
    assert!(s69_15("xx"), "s69_15");
    assert!(c70_0(), "c70_0");
    assert!(s70_0("", "a"), "s70_0");
    assert!(c70_1(), "c70_1");
    assert!(s70_1("", ":"), "s70_1");
    assert!(c70_2(), "c70_2");
    assert!(s70_2("", "x"), "s70_2");
    assert!(c70_3(), "c70_3");
    assert!(s70_3("", "b:"), "s70_3");
    assert!(c70_4(), "c70_4");
    assert!(s70_4("", "zz"), "s70_4");
    assert!(c70_5(), "c70_5");
    assert!(s70_5("a", "a"), "s70_5");
    assert!(c70_6(), "c70_6");
    assert!(s70_6("a", ":"), "s70_6");
    assert!(c70_7(), "c70_7");
    assert!(s70_7("a", "x"), "s70_7");
    assert!(c70_8(), "c70_8");
    assert!(s70_8("a", "b:"), "s70_8");
    assert!(c70_9(), "c70_9");
    assert!(s70_9("a", "zz"), "s70_9");
    assert!(c70_10(), "c70_10");
    assert!(s70_10("abc", "a"), "s70_10");
    assert!(c70_11(), "c70_11");
    assert!(s70_11("abc", ":"), "s70_11");
    assert!(c70_12(), "c70_12");
    assert!(s70_12("abc", "x"), "s70_12");
    assert!(c70_13(), "c70_13");
    assert!(s70_13("abc", "b:"), "s70_13");
    assert!(c70_14(), "c70_14");
    assert!(s70_14("abc", "zz"), "s70_14");
    assert!(c70_15(), "c70_15");
    assert!(s70_15("%a1", "a"), "s70_15");
    assert!(c70_16(), "c70_16");
    assert!(s70_16("%a1", ":"), "s70_16");
    assert!(c70_17(), "c70_17");
    assert!(s70_17("%a1", "x"), "s70_17");
    assert!(c70_18(), "c70_18");
    assert!(s70_18("%a1", "b:"), "s70_18");
    assert!(c70_19(), "c70_19");
    assert!(s70_19("%a1", "zz"), "s70_19");
    assert!(c70_20(), "c70_20");
    assert!(s70_20("\u{e9}%x", "a"), "s70_20");
    assert!(c70_21(), "c70_21");
    assert!(s70_21("\u{e9}%x", ":"), "s70_21");
    assert!(c70_22(), "c70_22");
    assert!(s70_22("\u{e9}%x", "x"), "s70_22");
    assert!(c70_23(), "c70_23");
    assert!(s70_23("\u{e9}%x", "b:"), "s70_23");
    assert!(c70_24(), "c70_24");
    assert!(s70_24("\u{e9}%x", "zz"), "s70_24");
    assert!(c70_25(), "c70_25");
    assert!(s70_25("a:b:c", "a"), "s70_25");
    assert!(c70_26(), "c70_26");
    assert!(s70_26("a:b:c", ":"), "s70_26");
    assert!(c70_27(), "c70_27");
    assert!(s70_27("a:b:c", "x"), "s70_27");
    assert!(c70_28(), "c70_28");
    assert!(s70_28("a:b:c", "b:"), "s70_28");
    assert!(c70_29(), "c70_29");
    assert!(s70_29("a:b:c", "zz"), "s70_29");
    assert!(c70_30(), "c70_30");
    assert!(s70_30("::", "a"), "s70_30");
    assert!(c70_31(), "c70_31");
    assert!(s70_31("::", ":"), "s70_31");
    assert!(c70_32(), "c70_32");
    assert!(s70_32("::", "x"), "s70_32");
    assert!(c70_33(), "c70_33");
    assert!(s70_33("::", "b:"), "s70_33");
    assert!(c70_34(), "c70_34");
    assert!(s70_34("::", "zz"), "s70_34");
    assert!(c70_35(), "c70_35");
    assert!(s70_35("  x ", "a"), "s70_35");
    assert!(c70_36(), "c70_36");
    assert!(s70_36("  x ", ":"), "s70_36");
    assert!(c70_37(), "c70_37");
    assert!(s70_37("  x ", "x"), "s70_37");
    assert!(c70_38(), "c70_38");
    assert!(s70_38("  x ", "b:"), "s70_38");
    assert!(c70_39(), "c70_39");
    assert!(s70_39("  x ", "zz"), "s70_39");
    assert!(c70_40(), "c70_40");
    assert!(s70_40("12", "a"), "s70_40");
    assert!(c70_41(), "c70_41");
    assert!(s70_41("12", ":"), "s70_41");
    assert!(c70_42(), "c70_42");
    assert!(s70_42("12", "x"), "s70_42");
    assert!(c70_43(), "c70_43");
    assert!(s70_43("12", "b:"), "s70_43");
    assert!(c70_44(), "c70_44");
    assert!(s70_44("12", "zz"), "s70_44");
    assert!(c70_45(), "c70_45");
    assert!(s70_45("-5", "a"), "s70_45");
    assert!(c70_46(), "c70_46");
    assert!(s70_46("-5", ":"), "s70_46");
    assert!(c70_47(), "c70_47");
    assert!(s70_47("-5", "x"), "s70_47");
    assert!(c70_48(), "c70_48");
    assert!(s70_48("-5", "b:"), "s70_48");
    assert!(c70_49(), "c70_49");
    assert!(s70_49("-5", "zz"), "s70_49");
    assert!(c70_50(), "c70_50");
    assert!(s70_50("+7", "a"), "s70_50");
    assert!(c70_51(), "c70_51");
    assert!(s70_51("+7", ":"), "s70_51");
    assert!(c70_52(), "c70_52");
    assert!(s70_52("+7", "x"), "s70_52");
    assert!(c70_53(), "c70_53");
    assert!(s70_53("+7", "b:"), "s70_53");
    assert!(c70_54(), "c70_54");
    assert!(s70_54("+7", "zz"), "s70_54");
    assert!(c70_55(), "c70_55");
    assert!(s70_55("99999999999999999999", "a"), "s70_55");
    assert!(c70_56(), "c70_56");
    assert!(s70_56("99999999999999999999", ":"), "s70_56");
    assert!(c70_57(), "c70_57");
    assert!(s70_57("99999999999999999999", "x"), "s70_57");
    assert!(c70_58(), "c70_58");
    assert!(s70_58("99999999999999999999", "b:"), "s70_58");
    assert!(c70_59(), "c70_59");
    assert!(s70_59("99999999999999999999", "zz"), "s70_59");
    assert!(c70_60(), "c70_60");
    assert!(s70_60("a\u{a}b\u{d}\u{a}c", "a"), "s70_60");
    assert!(c70_61(), "c70_61");
    assert!(s70_61("a\u{a}b\u{d}\u{a}c", ":"), "s70_61");
    assert!(c70_62(), "c70_62");
    assert!(s70_62("a\u{a}b\u{d}\u{a}c", "x"), "s70_62");
    assert!(c70_63(), "c70_63");
    assert!(s70_63("a\u{a}b\u{d}\u{a}c", "b:"), "s70_63");
    assert!(c70_64(), "c70_64");
    assert!(s70_64("a\u{a}b\u{d}\u{a}c", "zz"), "s70_64");
    assert!(c70_65(), "c70_65");
    assert!(s70_65("\u{65e5}\u{672c}", "a"), "s70_65");
    assert!(c70_66(), "c70_66");
    assert!(s70_66("\u{65e5}\u{672c}", ":"), "s70_66");
    assert!(c70_67(), "c70_67");
    assert!(s70_67("\u{65e5}\u{672c}", "x"), "s70_67");
    assert!(c70_68(), "c70_68");
    assert!(s70_68("\u{65e5}\u{672c}", "b:"), "s70_68");
    assert!(c70_69(), "c70_69");
    assert!(s70_69("\u{65e5}\u{672c}", "zz"), "s70_69");
    assert!(c70_70(), "c70_70");
    assert!(s70_70("\u{1f600}z", "a"), "s70_70");
    assert!(c70_71(), "c70_71");
    assert!(s70_71("\u{1f600}z", ":"), "s70_71");
    assert!(c70_72(), "c70_72");
    assert!(s70_72("\u{1f600}z", "x"), "s70_72");
    assert!(c70_73(), "c70_73");
    assert!(s70_73("\u{1f600}z", "b:"), "s70_73");
    assert!(c70_74(), "c70_74");
    assert!(s70_74("\u{1f600}z", "zz"), "s70_74");
    assert!(c70_75(), "c70_75");
    assert!(s70_75("xx", "a"), "s70_75");
    assert!(c70_76(), "c70_76");
    assert!(s70_76("xx", ":"), "s70_76");
    assert!(c70_77(), "c70_77");
    assert!(s70_77("xx", "x"), "s70_77");
    assert!(c70_78(), "c70_78");
    assert!(s70_78("xx", "b:"), "s70_78");
    assert!(c70_79(), "c70_79");
    assert!(s70_79("xx", "zz"), "s70_79");
    assert!(c71_0(), "c71_0");
    assert!(s71_0(""), "s71_0");
    assert!(c71_1(), "c71_1");
    assert!(s71_1("a"), "s71_1");
    assert!(c71_2(), "c71_2");
    assert!(s71_2("abc"), "s71_2");
    assert!(c71_3(), "c71_3");
    assert!(s71_3("%a1"), "s71_3");
    assert!(c71_4(), "c71_4");
    assert!(s71_4("\u{e9}%x"), "s71_4");
    assert!(c71_5(), "c71_5");
    assert!(s71_5("a:b:c"), "s71_5");
    assert!(c71_6(), "c71_6");
    assert!(s71_6("::"), "s71_6");
    assert!(c71_7(), "c71_7");
    assert!(s71_7("  x "), "s71_7");
    assert!(c71_8(), "c71_8");
    assert!(s71_8("12"), "s71_8");
    assert!(c71_9(), "c71_9");
    assert!(s71_9("-5"), "s71_9");
    assert!(c71_10(), "c71_10");
    assert!(s71_10("+7"), "s71_10");
    assert!(c71_11(), "c71_11");
    assert!(s71_11("99999999999999999999"), "s71_11");
    assert!(c71_12(), "c71_12");
    assert!(s71_12("a\u{a}b\u{d}\u{a}c"), "s71_12");
    assert!(c71_13(), "c71_13");
    assert!(s71_13("\u{65e5}\u{672c}"), "s71_13");
    assert!(c71_14(), "c71_14");
    assert!(s71_14("\u{1f600}z"), "s71_14");
    assert!(c71_15(), "c71_15");
    assert!(s71_15("xx"), "s71_15");
    assert!(c72_0(), "c72_0");
    assert!(s72_0(""), "s72_0");
    assert!(c72_1(), "c72_1");
    assert!(s72_1("a"), "s72_1");
    assert!(c72_2(), "c72_2");
    assert!(s72_2("abc"), "s72_2");
    assert!(c72_3(), "c72_3");
    assert!(s72_3("%a1"), "s72_3");
    assert!(c72_4(), "c72_4");
    assert!(s72_4("\u{e9}%x"), "s72_4");
    assert!(c72_5(), "c72_5");
    assert!(s72_5("a:b:c"), "s72_5");
    assert!(c72_6(), "c72_6");
    assert!(s72_6("::"), "s72_6");
    assert!(c72_7(), "c72_7");
    assert!(s72_7("  x "), "s72_7");
    assert!(c72_8(), "c72_8");
    assert!(s72_8("12"), "s72_8");
    assert!(c72_9(), "c72_9");
    assert!(s72_9("-5"), "s72_9");
    assert!(c72_10(), "c72_10");
    assert!(s72_10("+7"), "s72_10");
    assert!(c72_11(), "c72_11");
    assert!(s72_11("99999999999999999999"), "s72_11");
    assert!(c72_12(), "c72_12");
    assert!(s72_12("a\u{a}b\u{d}\u{a}c"), "s72_12");
    assert!(c72_13(), "c72_13");
    assert!(s72_13("\u{65e5}\u{672c}"), "s72_13");
    assert!(c72_14(), "c72_14");
    assert!(s72_14("\u{1f600}z"), "s72_14");
    assert!(c72_15(), "c72_15");
    assert!(s72_15("xx"), "s72_15");
    assert!(c73_0(), "c73_0");
    assert!(s73_0(""), "s73_0");
    assert!(c73_1(), "c73_1");
    assert!(s73_1("a"), "s73_1");
    assert!(c73_2(), "c73_2");
    assert!(s73_2("abc"), "s73_2");
    assert!(c73_3(), "c73_3");
    assert!(s73_3("%a1"), "s73_3");
    assert!(c73_4(), "c73_4");
    assert!(s73_4("\u{e9}%x"), "s73_4");
    assert!(c73_5(), "c73_5");
    assert!(s73_5("a:b:c"), "s73_5");
    assert!(c73_6(), "c73_6");
    assert!(s73_6("::"), "s73_6");
    assert!(c73_7(), "c73_7");
    assert!(s73_7("  x "), "s73_7");
    assert!(c73_8(), "c73_8");
    assert!(s73_8("12"), "s73_8");
    assert!(c73_9(), "c73_9");
    assert!(s73_9("-5"), "s73_9");
    assert!(c73_10(), "c73_10");
    assert!(s73_10("+7"), "s73_10");
    assert!(c73_11(), "c73_11");
    assert!(s73_11("99999999999999999999"), "s73_11");
    assert!(c73_12(), "c73_12");
    assert!(s73_12("a\u{a}b\u{d}\u{a}c"), "s73_12");
    assert!(c73_13(), "c73_13");
    assert!(s73_13("\u{65e5}\u{672c}"), "s73_13");
    assert!(c73_14(), "c73_14");
    assert!(s73_14("\u{1f600}z"), "s73_14");
    assert!(c73_15(), "c73_15");
    assert!(s73_15("xx"), "s73_15");
    assert!(c74_0(), "c74_0");
    assert!(s74_0(""), "s74_0");
    assert!(c74_1(), "c74_1");
    assert!(s74_1("a"), "s74_1");
    assert!(c74_2(), "c74_2");
    assert!(s74_2("abc"), "s74_2");
    assert!(c74_3(), "c74_3");
    assert!(s74_3("%a1"), "s74_3");
    assert!(c74_4(), "c74_4");
    assert!(s74_4("\u{e9}%x"), "s74_4");
    assert!(c74_5(), "c74_5");
    assert!(s74_5("a:b:c"), "s74_5");
    assert!(c74_6(), "c74_6");
    assert!(s74_6("::"), "s74_6");
    assert!(c74_7(), "c74_7");
    assert!(s74_7("  x "), "s74_7");
    assert!(c74_8(), "c74_8");
    assert!(s74_8("12"), "s74_8");
    assert!(c74_9(), "c74_9");
    assert!(s74_9("-5"), "s74_9");
    assert!(c74_10(), "c74_10");
    assert!(s74_10("+7"), "s74_10");
    assert!(c74_11(), "c74_11");
    assert!(s74_11("99999999999999999999"), "s74_11");
    assert!(c74_12(), "c74_12");
    assert!(s74_12("a\u{a}b\u{d}\u{a}c"), "s74_12");
    assert!(c74_13(), "c74_13");
    assert!(s74_13("\u{65e5}\u{672c}"), "s74_13");
    assert!(c74_14(), "c74_14");
    assert!(s74_14("\u{1f600}z"), "s74_14");
    assert!(c74_15(), "c74_15");
    assert!(s74_15("xx"), "s74_15");
    assert!(c75_0(), "c75_0");
    assert!(s75_0(""), "s75_0");
    assert!(c75_1(), "c75_1");
    assert!(s75_1("0"), "s75_1");
    assert!(c75_2(), "c75_2");
    assert!(s75_2("007"), "s75_2");
    assert!(c75_3(), "c75_3");
    assert!(s75_3("12"), "s75_3");
    assert!(c75_4(), "c75_4");
    assert!(s75_4("-5"), "s75_4");
    assert!(c75_5(), "c75_5");
    assert!(s75_5("+7"), "s75_5");
    assert!(c75_6(), "c75_6");
    assert!(s75_6("-"), "s75_6");
    assert!(c75_7(), "c75_7");
    assert!(s75_7("+"), "s75_7");
    assert!(c75_8(), "c75_8");
    assert!(s75_8("--1"), "s75_8");
    assert!(c75_9(), "c75_9");
    assert!(s75_9("9223372036854775807"), "s75_9");
    assert!(c75_10(), "c75_10");
    assert!(s75_10("9223372036854775808"), "s75_10");
    assert!(c75_11(), "c75_11");
    assert!(s75_11("-9223372036854775808"), "s75_11");
    assert!(c75_12(), "c75_12");
    assert!(s75_12(" 1"), "s75_12");
    assert!(c75_13(), "c75_13");
    assert!(s75_13("1a"), "s75_13");
    assert!(c75_14(), "c75_14");
    assert!(s75_14("\u{663}"), "s75_14");
    assert!(c76_0(), "c76_0");
    assert!(s76_0(""), "s76_0");
    assert!(c76_1(), "c76_1");
    assert!(s76_1("0"), "s76_1");
    assert!(c76_2(), "c76_2");
    assert!(s76_2("007"), "s76_2");
    assert!(c76_3(), "c76_3");
    assert!(s76_3("12"), "s76_3");
    assert!(c76_4(), "c76_4");
    assert!(s76_4("-5"), "s76_4");
    assert!(c76_5(), "c76_5");
    assert!(s76_5("+7"), "s76_5");
    assert!(c76_6(), "c76_6");
    assert!(s76_6("-"), "s76_6");
    assert!(c76_7(), "c76_7");
    assert!(s76_7("+"), "s76_7");
    assert!(c76_8(), "c76_8");
    assert!(s76_8("--1"), "s76_8");
    assert!(c76_9(), "c76_9");
    assert!(s76_9("9223372036854775807"), "s76_9");
    assert!(c76_10(), "c76_10");
    assert!(s76_10("9223372036854775808"), "s76_10");
    assert!(c76_11(), "c76_11");
    assert!(s76_11("-9223372036854775808"), "s76_11");
    assert!(c76_12(), "c76_12");
    assert!(s76_12(" 1"), "s76_12");
    assert!(c76_13(), "c76_13");
    assert!(s76_13("1a"), "s76_13");
    assert!(c76_14(), "c76_14");
    assert!(s76_14("\u{663}"), "s76_14");
    assert!(c77_0(), "c77_0");
    assert!(s77_0(""), "s77_0");
    assert!(c77_1(), "c77_1");
    assert!(s77_1("0"), "s77_1");
    assert!(c77_2(), "c77_2");
    assert!(s77_2("007"), "s77_2");
    assert!(c77_3(), "c77_3");
    assert!(s77_3("12"), "s77_3");
    assert!(c77_4(), "c77_4");
    assert!(s77_4("-5"), "s77_4");
    assert!(c77_5(), "c77_5");
    assert!(s77_5("+7"), "s77_5");
    assert!(c77_6(), "c77_6");
    assert!(s77_6("-"), "s77_6");
    assert!(c77_7(), "c77_7");
    assert!(s77_7("+"), "s77_7");
    assert!(c77_8(), "c77_8");
    assert!(s77_8("--1"), "s77_8");
    assert!(c77_9(), "c77_9");
    assert!(s77_9("9223372036854775807"), "s77_9");
    assert!(c77_10(), "c77_10");
    assert!(s77_10("9223372036854775808"), "s77_10");
    assert!(c77_11(), "c77_11");
    assert!(s77_11("-9223372036854775808"), "s77_11");
    assert!(c77_12(), "c77_12");
    assert!(s77_12(" 1"), "s77_12");
    assert!(c77_13(), "c77_13");
    assert!(s77_13("1a"), "s77_13");
    assert!(c77_14(), "c77_14");
    assert!(s77_14("\u{663}"), "s77_14");
    assert!(c78_0(), "c78_0");
    assert!(s78_0(""), "s78_0");
    assert!(c78_1(), "c78_1");
    assert!(s78_1("0"), "s78_1");
    assert!(c78_2(), "c78_2");
    assert!(s78_2("007"), "s78_2");
    assert!(c78_3(), "c78_3");
    assert!(s78_3("12"), "s78_3");
    assert!(c78_4(), "c78_4");
    assert!(s78_4("-5"), "s78_4");
    assert!(c78_5(), "c78_5");
    assert!(s78_5("+7"), "s78_5");
    assert!(c78_6(), "c78_6");
    assert!(s78_6("-"), "s78_6");
    assert!(c78_7(), "c78_7");
    assert!(s78_7("+"), "s78_7");
    assert!(c78_8(), "c78_8");
    assert!(s78_8("--1"), "s78_8");
    assert!(c78_9(), "c78_9");
    assert!(s78_9("9223372036854775807"), "s78_9");
    assert!(c78_10(), "c78_10");
    assert!(s78_10("9223372036854775808"), "s78_10");
    assert!(c78_11(), "c78_11");
    assert!(s78_11("-9223372036854775808"), "s78_11");
    assert!(c78_12(), "c78_12");
    assert!(s78_12(" 1"), "s78_12");
    assert!(c78_13(), "c78_13");
    assert!(s78_13("1a"), "s78_13");
    assert!(c78_14(), "c78_14");
    assert!(s78_14("\u{663}"), "s78_14");
    assert!(c79_0(), "c79_0");
    assert!(s79_0(""), "s79_0");
    assert!(c79_1(), "c79_1");
    assert!(s79_1("0"), "s79_1");
    assert!(c79_2(), "c79_2");
    assert!(s79_2("007"), "s79_2");
    assert!(c79_3(), "c79_3");
    assert!(s79_3("12"), "s79_3");
    assert!(c79_4(), "c79_4");
    assert!(s79_4("-5"), "s79_4");
    assert!(c79_5(), "c79_5");
    assert!(s79_5("+7"), "s79_5");
    assert!(c79_6(), "c79_6");
    assert!(s79_6("-"), "s79_6");
    assert!(c79_7(), "c79_7");
    assert!(s79_7("+"), "s79_7");
    assert!(c79_8(), "c79_8");
    assert!(s79_8("--1"), "s79_8");
    assert!(c79_9(), "c79_9");
    assert!(s79_9("9223372036854775807"), "s79_9");
    assert!(c79_10(), "c79_10");
    assert!(s79_10("9223372036854775808"), "s79_10");
    assert!(c79_11(), "c79_11");
    assert!(s79_11("-9223372036854775808"), "s79_11");
    assert!(c79_12(), "c79_12");
    assert!(s79_12(" 1"), "s79_12");
    assert!(c79_13(), "c79_13");
    assert!(s79_13("1a"), "s79_13");
    assert!(c79_14(), "c79_14");
    assert!(s79_14("\u{663}"), "s79_14");
    assert!(c80_0(), "c80_0");
    assert!(s80_0('a'), "s80_0");
    assert!(c80_1(), "c80_1");
    assert!(s80_1('Z'), "s80_1");
    assert!(c80_2(), "c80_2");
    assert!(s80_2('0'), "s80_2");
    assert!(c80_3(), "c80_3");
    assert!(s80_3('_'), "s80_3");
    assert!(c80_4(), "c80_4");
    assert!(s80_4(' '), "s80_4");
    assert!(c80_5(), "c80_5");
    assert!(s80_5('\n'), "s80_5");
    assert!(c80_6(), "c80_6");
    assert!(s80_6('\u{e9}'), "s80_6");
    assert!(c80_7(), "c80_7");
    assert!(s80_7('\u{1f600}'), "s80_7");
    assert!(c80_8(), "c80_8");
    assert!(s80_8('\u{663}'), "s80_8");
    assert!(c80_9(), "c80_9");
    assert!(s80_9('\u{2028}'), "s80_9");
    assert!(c80_10(), "c80_10");
    assert!(s80_10(':'), "s80_10");
    assert!(c81_0(), "c81_0");
    assert!(s81_0('a'), "s81_0");
    assert!(c81_1(), "c81_1");
    assert!(s81_1('Z'), "s81_1");
    assert!(c81_2(), "c81_2");
    assert!(s81_2('0'), "s81_2");
    assert!(c81_3(), "c81_3");
    assert!(s81_3('_'), "s81_3");
    assert!(c81_4(), "c81_4");
    assert!(s81_4(' '), "s81_4");
    assert!(c81_5(), "c81_5");
    assert!(s81_5('\n'), "s81_5");
    assert!(c81_6(), "c81_6");
    assert!(s81_6('\u{e9}'), "s81_6");
    assert!(c81_7(), "c81_7");
    assert!(s81_7('\u{1f600}'), "s81_7");
    assert!(c81_8(), "c81_8");
    assert!(s81_8('\u{663}'), "s81_8");
    assert!(c81_9(), "c81_9");
    assert!(s81_9('\u{2028}'), "s81_9");
    assert!(c81_10(), "c81_10");
    assert!(s81_10(':'), "s81_10");
    assert!(c82_0(), "c82_0");
    assert!(s82_0('a'), "s82_0");
    assert!(c82_1(), "c82_1");
    assert!(s82_1('Z'), "s82_1");
    assert!(c82_2(), "c82_2");
    assert!(s82_2('0'), "s82_2");
    assert!(c82_3(), "c82_3");
    assert!(s82_3('_'), "s82_3");
    assert!(c82_4(), "c82_4");
    assert!(s82_4(' '), "s82_4");
    assert!(c82_5(), "c82_5");
    assert!(s82_5('\n'), "s82_5");
    assert!(c82_6(), "c82_6");
    assert!(s82_6('\u{e9}'), "s82_6");
    assert!(c82_7(), "c82_7");
    assert!(s82_7('\u{1f600}'), "s82_7");
    assert!(c82_8(), "c82_8");
    assert!(s82_8('\u{663}'), "s82_8");
    assert!(c82_9(), "c82_9");
    assert!(s82_9('\u{2028}'), "s82_9");
    assert!(c82_10(), "c82_10");
    assert!(s82_10(':'), "s82_10");
    assert!(c83_0(), "c83_0");
    assert!(s83_0('a'), "s83_0");
    assert!(c83_1(), "c83_1");
    assert!(s83_1('Z'), "s83_1");
    assert!(c83_2(), "c83_2");
    assert!(s83_2('0'), "s83_2");
    assert!(c83_3(), "c83_3");
    assert!(s83_3('_'), "s83_3");
    assert!(c83_4(), "c83_4");
    assert!(s83_4(' '), "s83_4");
    assert!(c83_5(), "c83_5");
    assert!(s83_5('\n'), "s83_5");
    assert!(c83_6(), "c83_6");
    assert!(s83_6('\u{e9}'), "s83_6");
    assert!(c83_7(), "c83_7");
    assert!(s83_7('\u{1f600}'), "s83_7");
    assert!(c83_8(), "c83_8");
    assert!(s83_8('\u{663}'), "s83_8");
    assert!(c83_9(), "c83_9");
    assert!(s83_9('\u{2028}'), "s83_9");
    assert!(c83_10(), "c83_10");
    assert!(s83_10(':'), "s83_10");
    assert!(c84_0(), "c84_0");
    assert!(s84_0('a'), "s84_0");
    assert!(c84_1(), "c84_1");
    assert!(s84_1('Z'), "s84_1");
    assert!(c84_2(), "c84_2");
    assert!(s84_2('0'), "s84_2");
    assert!(c84_3(), "c84_3");
    assert!(s84_3('_'), "s84_3");
    assert!(c84_4(), "c84_4");
    assert!(s84_4(' '), "s84_4");
    assert!(c84_5(), "c84_5");
    assert!(s84_5('\n'), "s84_5");
    assert!(c84_6(), "c84_6");
    assert!(s84_6('\u{e9}'), "s84_6");
    assert!(c84_7(), "c84_7");
    assert!(s84_7('\u{1f600}'), "s84_7");
    assert!(c84_8(), "c84_8");
    assert!(s84_8('\u{663}'), "s84_8");
    assert!(c84_9(), "c84_9");
    assert!(s84_9('\u{2028}'), "s84_9");
    assert!(c84_10(), "c84_10");
    assert!(s84_10(':'), "s84_10");
    assert!(c85_0(), "c85_0");
    assert!(s85_0('a'), "s85_0");
    assert!(c85_1(), "c85_1");
    assert!(s85_1('Z'), "s85_1");
    assert!(c85_2(), "c85_2");
    assert!(s85_2('0'), "s85_2");
    assert!(c85_3(), "c85_3");
    assert!(s85_3('_'), "s85_3");
    assert!(c85_4(), "c85_4");
    assert!(s85_4(' '), "s85_4");
    assert!(c85_5(), "c85_5");
    assert!(s85_5('\n'), "s85_5");
    assert!(c85_6(), "c85_6");
    assert!(s85_6('\u{e9}'), "s85_6");
    assert!(c85_7(), "c85_7");
    assert!(s85_7('\u{1f600}'), "s85_7");
    assert!(c85_8(), "c85_8");
    assert!(s85_8('\u{663}'), "s85_8");
    assert!(c85_9(), "c85_9");
    assert!(s85_9('\u{2028}'), "s85_9");
    assert!(c85_10(), "c85_10");
    assert!(s85_10(':'), "s85_10");
    assert!(c86_0(), "c86_0");
    assert!(s86_0('a'), "s86_0");
    assert!(c86_1(), "c86_1");
    assert!(s86_1('Z'), "s86_1");
    assert!(c86_2(), "c86_2");
    assert!(s86_2('0'), "s86_2");
    assert!(c86_3(), "c86_3");
    assert!(s86_3('_'), "s86_3");
    assert!(c86_4(), "c86_4");
    assert!(s86_4(' '), "s86_4");
    assert!(c86_5(), "c86_5");
    assert!(s86_5('\n'), "s86_5");
    assert!(c86_6(), "c86_6");
    assert!(s86_6('\u{e9}'), "s86_6");
    assert!(c86_7(), "c86_7");
    assert!(s86_7('\u{1f600}'), "s86_7");
    assert!(c86_8(), "c86_8");
    assert!(s86_8('\u{663}'), "s86_8");
    assert!(c86_9(), "c86_9");
    assert!(s86_9('\u{2028}'), "s86_9");
    assert!(c86_10(), "c86_10");
    assert!(s86_10(':'), "s86_10");
    assert!(c87_0(), "c87_0");
    assert!(s87_0('a'), "s87_0");
    assert!(c87_1(), "c87_1");
    assert!(s87_1('Z'), "s87_1");
    assert!(c87_2(), "c87_2");
    assert!(s87_2('0'), "s87_2");
    assert!(c87_3(), "c87_3");
    assert!(s87_3('_'), "s87_3");
    assert!(c87_4(), "c87_4");
    assert!(s87_4(' '), "s87_4");
    assert!(c87_5(), "c87_5");
    assert!(s87_5('\n'), "s87_5");
    assert!(c87_6(), "c87_6");
    assert!(s87_6('\u{e9}'), "s87_6");
    assert!(c87_7(), "c87_7");
    assert!(s87_7('\u{1f600}'), "s87_7");
    assert!(c87_8(), "c87_8");
    assert!(s87_8('\u{663}'), "s87_8");
    assert!(c87_9(), "c87_9");
    assert!(s87_9('\u{2028}'), "s87_9");
    assert!(c87_10(), "c87_10");
    assert!(s87_10(':'), "s87_10");
    assert!(c88_0(), "c88_0");
    assert!(s88_0('a'), "s88_0");
    assert!(c88_1(), "c88_1");
    assert!(s88_1('Z'), "s88_1");
    assert!(c88_2(), "c88_2");
    assert!(s88_2('0'), "s88_2");
    assert!(c88_3(), "c88_3");
    assert!(s88_3('_'), "s88_3");
    assert!(c88_4(), "c88_4");
    assert!(s88_4(' '), "s88_4");
    assert!(c88_5(), "c88_5");
    assert!(s88_5('\n'), "s88_5");
    assert!(c88_6(), "c88_6");
    assert!(s88_6('\u{e9}'), "s88_6");
    assert!(c88_7(), "c88_7");
    assert!(s88_7('\u{1f600}'), "s88_7");
    assert!(c88_8(), "c88_8");
    assert!(s88_8('\u{663}'), "s88_8");
    assert!(c88_9(), "c88_9");
    assert!(s88_9('\u{2028}'), "s88_9");
    assert!(c88_10(), "c88_10");
    assert!(s88_10(':'), "s88_10");
    assert!(c89_0(), "c89_0");
    assert!(s89_0('a'), "s89_0");
    assert!(c89_1(), "c89_1");
    assert!(s89_1('Z'), "s89_1");
    assert!(c89_2(), "c89_2");
    assert!(s89_2('0'), "s89_2");
    assert!(c89_3(), "c89_3");
    assert!(s89_3('_'), "s89_3");
    assert!(c89_4(), "c89_4");
    assert!(s89_4(' '), "s89_4");
    assert!(c89_5(), "c89_5");
    assert!(s89_5('\n'), "s89_5");
    assert!(c89_6(), "c89_6");
    assert!(s89_6('\u{e9}'), "s89_6");
    assert!(c89_7(), "c89_7");
    assert!(s89_7('\u{1f600}'), "s89_7");
    assert!(c89_8(), "c89_8");
    assert!(s89_8('\u{663}'), "s89_8");
    assert!(c89_9(), "c89_9");
    assert!(s89_9('\u{2028}'), "s89_9");
    assert!(c89_10(), "c89_10");
    assert!(s89_10(':'), "s89_10");
    assert!(c90_0(), "c90_0");
    assert!(s90_0('a'), "s90_0");
    assert!(c90_1(), "c90_1");
    assert!(s90_1('Z'), "s90_1");
    assert!(c90_2(), "c90_2");
    assert!(s90_2('0'), "s90_2");
    assert!(c90_3(), "c90_3");
    assert!(s90_3('_'), "s90_3");
    assert!(c90_4(), "c90_4");
    assert!(s90_4(' '), "s90_4");
    assert!(c90_5(), "c90_5");
    assert!(s90_5('\n'), "s90_5");
    assert!(c90_6(), "c90_6");
    assert!(s90_6('\u{e9}'), "s90_6");
    assert!(c90_7(), "c90_7");
    assert!(s90_7('\u{1f600}'), "s90_7");
    assert!(c90_8(), "c90_8");
    assert!(s90_8('\u{663}'), "s90_8");
    assert!(c90_9(), "c90_9");
    assert!(s90_9('\u{2028}'), "s90_9");
    assert!(c90_10(), "c90_10");
    assert!(s90_10(':'), "s90_10");
    assert!(c91_0(), "c91_0");
    assert!(s91_0('a'), "s91_0");
    assert!(c91_1(), "c91_1");
    assert!(s91_1('Z'), "s91_1");
    assert!(c91_2(), "c91_2");
    assert!(s91_2('0'), "s91_2");
    assert!(c91_3(), "c91_3");
    assert!(s91_3('_'), "s91_3");
    assert!(c91_4(), "c91_4");
    assert!(s91_4(' '), "s91_4");
    assert!(c91_5(), "c91_5");
    assert!(s91_5('\n'), "s91_5");
    assert!(c91_6(), "c91_6");
    assert!(s91_6('\u{e9}'), "s91_6");
    assert!(c91_7(), "c91_7");
    assert!(s91_7('\u{1f600}'), "s91_7");
    assert!(c91_8(), "c91_8");
    assert!(s91_8('\u{663}'), "s91_8");
    assert!(c91_9(), "c91_9");
    assert!(s91_9('\u{2028}'), "s91_9");
    assert!(c91_10(), "c91_10");
    assert!(s91_10(':'), "s91_10");
    assert!(c92_0(), "c92_0");
    assert!(s92_0('a'), "s92_0");
    assert!(c92_1(), "c92_1");
    assert!(s92_1('Z'), "s92_1");
    assert!(c92_2(), "c92_2");
    assert!(s92_2('0'), "s92_2");
    assert!(c92_3(), "c92_3");
    assert!(s92_3('_'), "s92_3");
    assert!(c92_4(), "c92_4");
    assert!(s92_4(' '), "s92_4");
    assert!(c92_5(), "c92_5");
    assert!(s92_5('\n'), "s92_5");
    assert!(c92_6(), "c92_6");
    assert!(s92_6('\u{e9}'), "s92_6");
    assert!(c92_7(), "c92_7");
    assert!(s92_7('\u{1f600}'), "s92_7");
    assert!(c92_8(), "c92_8");
    assert!(s92_8('\u{663}'), "s92_8");
    assert!(c92_9(), "c92_9");
    assert!(s92_9('\u{2028}'), "s92_9");
    assert!(c92_10(), "c92_10");
    assert!(s92_10(':'), "s92_10");
    assert!(c93_0(), "c93_0");
    assert!(s93_0('a'), "s93_0");
    assert!(c93_1(), "c93_1");
    assert!(s93_1('Z'), "s93_1");
    assert!(c93_2(), "c93_2");
    assert!(s93_2('0'), "s93_2");
    assert!(c93_3(), "c93_3");
    assert!(s93_3('_'), "s93_3");
    assert!(c93_4(), "c93_4");
    assert!(s93_4(' '), "s93_4");
    assert!(c93_5(), "c93_5");
    assert!(s93_5('\n'), "s93_5");
    assert!(c93_6(), "c93_6");
    assert!(s93_6('\u{e9}'), "s93_6");
    assert!(c93_7(), "c93_7");
    assert!(s93_7('\u{1f600}'), "s93_7");
    assert!(c93_8(), "c93_8");
    assert!(s93_8('\u{663}'), "s93_8");
    assert!(c93_9(), "c93_9");
    assert!(s93_9('\u{2028}'), "s93_9");
    assert!(c93_10(), "c93_10");
    assert!(s93_10(':'), "s93_10");
    assert!(c94_0(), "c94_0");
    assert!(s94_0('a'), "s94_0");
    assert!(c94_1(), "c94_1");
    assert!(s94_1('Z'), "s94_1");
    assert!(c94_2(), "c94_2");
    assert!(s94_2('0'), "s94_2");
    assert!(c94_3(), "c94_3");
    assert!(s94_3('_'), "s94_3");
    assert!(c94_4(), "c94_4");
    assert!(s94_4(' '), "s94_4");
    assert!(c94_5(), "c94_5");
    assert!(s94_5('\n'), "s94_5");
    assert!(c94_6(), "c94_6");
    assert!(s94_6('\u{e9}'), "s94_6");
    assert!(c94_7(), "c94_7");
    assert!(s94_7('\u{1f600}'), "s94_7");
    assert!(c94_8(), "c94_8");
    assert!(s94_8('\u{663}'), "s94_8");
    assert!(c94_9(), "c94_9");
    assert!(s94_9('\u{2028}'), "s94_9");
    assert!(c94_10(), "c94_10");
    assert!(s94_10(':'), "s94_10");
    assert!(c95_0(), "c95_0");
    assert!(s95_0('a'), "s95_0");
    assert!(c95_1(), "c95_1");
    assert!(s95_1('Z'), "s95_1");
    assert!(c95_2(), "c95_2");
    assert!(s95_2('0'), "s95_2");
    assert!(c95_3(), "c95_3");
    assert!(s95_3('_'), "s95_3");
    assert!(c95_4(), "c95_4");
    assert!(s95_4(' '), "s95_4");
    assert!(c95_5(), "c95_5");
    assert!(s95_5('\n'), "s95_5");
    assert!(c95_6(), "c95_6");
    assert!(s95_6('\u{e9}'), "s95_6");
    assert!(c95_7(), "c95_7");
    assert!(s95_7('\u{1f600}'), "s95_7");
    assert!(c95_8(), "c95_8");
    assert!(s95_8('\u{663}'), "s95_8");
    assert!(c95_9(), "c95_9");
    assert!(s95_9('\u{2028}'), "s95_9");
    assert!(c95_10(), "c95_10");
    assert!(s95_10(':'), "s95_10");
    assert!(c96_0(), "c96_0");
    assert!(s96_0('a'), "s96_0");
    assert!(c96_1(), "c96_1");
    assert!(s96_1('Z'), "s96_1");
    assert!(c96_2(), "c96_2");
    assert!(s96_2('0'), "s96_2");
    assert!(c96_3(), "c96_3");
    assert!(s96_3('_'), "s96_3");
    assert!(c96_4(), "c96_4");
    assert!(s96_4(' '), "s96_4");
    assert!(c96_5(), "c96_5");
    assert!(s96_5('\n'), "s96_5");
    assert!(c96_6(), "c96_6");
    assert!(s96_6('\u{e9}'), "s96_6");
    assert!(c96_7(), "c96_7");
    assert!(s96_7('\u{1f600}'), "s96_7");
    assert!(c96_8(), "c96_8");
    assert!(s96_8('\u{663}'), "s96_8");
    assert!(c96_9(), "c96_9");
    assert!(s96_9('\u{2028}'), "s96_9");
    assert!(c96_10(), "c96_10");
    assert!(s96_10(':'), "s96_10");
    assert!(c97_0(), "c97_0");
    assert!(s97_0(0, 1), "s97_0");
    assert!(c97_1(), "c97_1");
    assert!(s97_1(0, -1), "s97_1");
    assert!(c97_2(), "c97_2");
    assert!(s97_2(0, 2), "s97_2");
    assert!(c97_3(), "c97_3");
    assert!(s97_3(0, i64::MAX), "s97_3");
    assert!(c97_4(), "c97_4");
    assert!(s97_4(0, i64::MIN), "s97_4");
    assert!(c97_5(), "c97_5");
    assert!(s97_5(1, 1), "s97_5");
    assert!(c97_6(), "c97_6");
    assert!(s97_6(1, -1), "s97_6");
    assert!(c97_7(), "c97_7");
    assert!(s97_7(1, 2), "s97_7");
    assert!(c97_8(), "c97_8");
    assert!(s97_8(1, i64::MAX), "s97_8");
    assert!(c97_9(), "c97_9");
    assert!(s97_9(1, i64::MIN), "s97_9");
    assert!(c97_10(), "c97_10");
    assert!(s97_10(-1, 1), "s97_10");
    assert!(c97_11(), "c97_11");
    assert!(s97_11(-1, -1), "s97_11");
    assert!(c97_12(), "c97_12");
    assert!(s97_12(-1, 2), "s97_12");
    assert!(c97_13(), "c97_13");
    assert!(s97_13(-1, i64::MAX), "s97_13");
    assert!(c97_14(), "c97_14");
    assert!(s97_14(-1, i64::MIN), "s97_14");
    assert!(c97_15(), "c97_15");
    assert!(s97_15(41, 1), "s97_15");
    assert!(c97_16(), "c97_16");
    assert!(s97_16(41, -1), "s97_16");
    assert!(c97_17(), "c97_17");
    assert!(s97_17(41, 2), "s97_17");
    assert!(c97_18(), "c97_18");
    assert!(s97_18(41, i64::MAX), "s97_18");
    assert!(c97_19(), "c97_19");
    assert!(s97_19(41, i64::MIN), "s97_19");
    assert!(c97_20(), "c97_20");
    assert!(s97_20(i64::MAX, 1), "s97_20");
    assert!(c97_21(), "c97_21");
    assert!(s97_21(i64::MAX, -1), "s97_21");
    assert!(c97_22(), "c97_22");
    assert!(s97_22(i64::MAX, 2), "s97_22");
    assert!(c97_23(), "c97_23");
    assert!(s97_23(i64::MAX, i64::MAX), "s97_23");
    assert!(c97_24(), "c97_24");
    assert!(s97_24(i64::MAX, i64::MIN), "s97_24");
    assert!(c97_25(), "c97_25");
    assert!(s97_25(i64::MIN, 1), "s97_25");
    assert!(c97_26(), "c97_26");
    assert!(s97_26(i64::MIN, -1), "s97_26");
    assert!(c97_27(), "c97_27");
    assert!(s97_27(i64::MIN, 2), "s97_27");
    assert!(c97_28(), "c97_28");
    assert!(s97_28(i64::MIN, i64::MAX), "s97_28");
    assert!(c97_29(), "c97_29");
    assert!(s97_29(i64::MIN, i64::MIN), "s97_29");
    assert!(c97_30(), "c97_30");
    assert!(s97_30(i64::MAX - 1, 1), "s97_30");
    assert!(c97_31(), "c97_31");
    assert!(s97_31(i64::MAX - 1, -1), "s97_31");
    assert!(c97_32(), "c97_32");
    assert!(s97_32(i64::MAX - 1, 2), "s97_32");
    assert!(c97_33(), "c97_33");
    assert!(s97_33(i64::MAX - 1, i64::MAX), "s97_33");
    assert!(c97_34(), "c97_34");
    assert!(s97_34(i64::MAX - 1, i64::MIN), "s97_34");
    assert!(c98_0(), "c98_0");
    assert!(s98_0(0, 1), "s98_0");
    assert!(c98_1(), "c98_1");
    assert!(s98_1(0, -1), "s98_1");
    assert!(c98_2(), "c98_2");
    assert!(s98_2(0, 2), "s98_2");
    assert!(c98_3(), "c98_3");
    assert!(s98_3(0, i64::MAX), "s98_3");
    assert!(c98_4(), "c98_4");
    assert!(s98_4(0, i64::MIN), "s98_4");
    assert!(c98_5(), "c98_5");
    assert!(s98_5(1, 1), "s98_5");
    assert!(c98_6(), "c98_6");
    assert!(s98_6(1, -1), "s98_6");
    assert!(c98_7(), "c98_7");
    assert!(s98_7(1, 2), "s98_7");
    assert!(c98_8(), "c98_8");
    assert!(s98_8(1, i64::MAX), "s98_8");
    assert!(c98_9(), "c98_9");
    assert!(s98_9(1, i64::MIN), "s98_9");
    assert!(c98_10(), "c98_10");
    assert!(s98_10(-1, 1), "s98_10");
    assert!(c98_11(), "c98_11");
    assert!(s98_11(-1, -1), "s98_11");
    assert!(c98_12(), "c98_12");
    assert!(s98_12(-1, 2), "s98_12");
    assert!(c98_13(), "c98_13");
    assert!(s98_13(-1, i64::MAX), "s98_13");
    assert!(c98_14(), "c98_14");
    assert!(s98_14(-1, i64::MIN), "s98_14");
    assert!(c98_15(), "c98_15");
    assert!(s98_15(41, 1), "s98_15");
    assert!(c98_16(), "c98_16");
    assert!(s98_16(41, -1), "s98_16");
    assert!(c98_17(), "c98_17");
    assert!(s98_17(41, 2), "s98_17");
    assert!(c98_18(), "c98_18");
    assert!(s98_18(41, i64::MAX), "s98_18");
    assert!(c98_19(), "c98_19");
    assert!(s98_19(41, i64::MIN), "s98_19");
    assert!(c98_20(), "c98_20");
    assert!(s98_20(i64::MAX, 1), "s98_20");
    assert!(c98_21(), "c98_21");
    assert!(s98_21(i64::MAX, -1), "s98_21");
    assert!(c98_22(), "c98_22");
    assert!(s98_22(i64::MAX, 2), "s98_22");
    assert!(c98_23(), "c98_23");
    assert!(s98_23(i64::MAX, i64::MAX), "s98_23");
    assert!(c98_24(), "c98_24");
    assert!(s98_24(i64::MAX, i64::MIN), "s98_24");
    assert!(c98_25(), "c98_25");
    assert!(s98_25(i64::MIN, 1), "s98_25");
    assert!(c98_26(), "c98_26");
    assert!(s98_26(i64::MIN, -1), "s98_26");
    assert!(c98_27(), "c98_27");
    assert!(s98_27(i64::MIN, 2), "s98_27");
    assert!(c98_28(), "c98_28");
    assert!(s98_28(i64::MIN, i64::MAX), "s98_28");
    assert!(c98_29(), "c98_29");
    assert!(s98_29(i64::MIN, i64::MIN), "s98_29");
    assert!(c98_30(), "c98_30");
    assert!(s98_30(i64::MAX - 1, 1), "s98_30");
    assert!(c98_31(), "c98_31");
    assert!(s98_31(i64::MAX - 1, -1), "s98_31");
    assert!(c98_32(), "c98_32");
    assert!(s98_32(i64::MAX - 1, 2), "s98_32");
    assert!(c98_33(), "c98_33");
    assert!(s98_33(i64::MAX - 1, i64::MAX), "s98_33");
    assert!(c98_34(), "c98_34");
    assert!(s98_34(i64::MAX - 1, i64::MIN), "s98_34");
    assert!(c99_0(), "c99_0");
    assert!(s99_0(0, 1), "s99_0");
    assert!(c99_1(), "c99_1");
    assert!(s99_1(0, -1), "s99_1");
    assert!(c99_2(), "c99_2");
    assert!(s99_2(0, 2), "s99_2");
    assert!(c99_3(), "c99_3");
    assert!(s99_3(0, i64::MAX), "s99_3");
    assert!(c99_4(), "c99_4");
    assert!(s99_4(0, i64::MIN), "s99_4");
    assert!(c99_5(), "c99_5");
    assert!(s99_5(1, 1), "s99_5");
    assert!(c99_6(), "c99_6");
    assert!(s99_6(1, -1), "s99_6");
    assert!(c99_7(), "c99_7");
    assert!(s99_7(1, 2), "s99_7");
    assert!(c99_8(), "c99_8");
    assert!(s99_8(1, i64::MAX), "s99_8");
    assert!(c99_9(), "c99_9");
    assert!(s99_9(1, i64::MIN), "s99_9");
    assert!(c99_10(), "c99_10");
    assert!(s99_10(-1, 1), "s99_10");
    assert!(c99_11(), "c99_11");
    assert!(s99_11(-1, -1), "s99_11");
    assert!(c99_12(), "c99_12");
    assert!(s99_12(-1, 2), "s99_12");
    assert!(c99_13(), "c99_13");
    assert!(s99_13(-1, i64::MAX), "s99_13");
    assert!(c99_14(), "c99_14");
    assert!(s99_14(-1, i64::MIN), "s99_14");
    assert!(c99_15(), "c99_15");
    assert!(s99_15(41, 1), "s99_15");
    assert!(c99_16(), "c99_16");
    assert!(s99_16(41, -1), "s99_16");
    assert!(c99_17(), "c99_17");
    assert!(s99_17(41, 2), "s99_17");
    assert!(c99_18(), "c99_18");
    assert!(s99_18(41, i64::MAX), "s99_18");
    assert!(c99_19(), "c99_19");
    assert!(s99_19(41, i64::MIN), "s99_19");
    assert!(c99_20(), "c99_20");
    assert!(s99_20(i64::MAX, 1), "s99_20");
    assert!(c99_21(), "c99_21");
    assert!(s99_21(i64::MAX, -1), "s99_21");
    assert!(c99_22(), "c99_22");
    assert!(s99_22(i64::MAX, 2), "s99_22");
    assert!(c99_23(), "c99_23");
    assert!(s99_23(i64::MAX, i64::MAX), "s99_23");
    assert!(c99_24(), "c99_24");
    assert!(s99_24(i64::MAX, i64::MIN), "s99_24");
    assert!(c99_25(), "c99_25");
    assert!(s99_25(i64::MIN, 1), "s99_25");
    assert!(c99_26(), "c99_26");
    assert!(s99_26(i64::MIN, -1), "s99_26");
    assert!(c99_27(), "c99_27");
    assert!(s99_27(i64::MIN, 2), "s99_27");
    assert!(c99_28(), "c99_28");
    assert!(s99_28(i64::MIN, i64::MAX), "s99_28");
    assert!(c99_29(), "c99_29");
    assert!(s99_29(i64::MIN, i64::MIN), "s99_29");
    assert!(c99_30(), "c99_30");
    assert!(s99_30(i64::MAX - 1, 1), "s99_30");
    assert!(c99_31(), "c99_31");
    assert!(s99_31(i64::MAX - 1, -1), "s99_31");
    assert!(c99_32(), "c99_32");
    assert!(s99_32(i64::MAX - 1, 2), "s99_32");
    assert!(c99_33(), "c99_33");
    assert!(s99_33(i64::MAX - 1, i64::MAX), "s99_33");
    assert!(c99_34(), "c99_34");
    assert!(s99_34(i64::MAX - 1, i64::MIN), "s99_34");
    assert!(c100_0(), "c100_0");
    assert!(s100_0(0, 1), "s100_0");
    assert!(c100_1(), "c100_1");
    assert!(s100_1(0, -1), "s100_1");
    assert!(c100_2(), "c100_2");
    assert!(s100_2(0, i64::MIN), "s100_2");
    assert!(c100_3(), "c100_3");
    assert!(s100_3(1, 1), "s100_3");
    assert!(c100_4(), "c100_4");
    assert!(s100_4(1, -1), "s100_4");
    assert!(c100_5(), "c100_5");
    assert!(s100_5(1, i64::MIN), "s100_5");
    assert!(c100_6(), "c100_6");
    assert!(s100_6(-1, 1), "s100_6");
    assert!(c100_7(), "c100_7");
    assert!(s100_7(-1, -1), "s100_7");
    assert!(c100_8(), "c100_8");
    assert!(s100_8(-1, i64::MIN), "s100_8");
    assert!(c100_9(), "c100_9");
    assert!(s100_9(41, 1), "s100_9");
    assert!(c100_10(), "c100_10");
    assert!(s100_10(41, -1), "s100_10");
    assert!(c100_11(), "c100_11");
    assert!(s100_11(41, i64::MIN), "s100_11");
    assert!(c100_12(), "c100_12");
    assert!(s100_12(i64::MAX, 1), "s100_12");
    assert!(c100_13(), "c100_13");
    assert!(s100_13(i64::MAX, -1), "s100_13");
    assert!(c100_14(), "c100_14");
    assert!(s100_14(i64::MAX, i64::MIN), "s100_14");
    assert!(c100_15(), "c100_15");
    assert!(s100_15(i64::MIN, 1), "s100_15");
    assert!(c100_16(), "c100_16");
    assert!(s100_16(i64::MIN, -1), "s100_16");
    assert!(c100_17(), "c100_17");
    assert!(s100_17(i64::MIN, i64::MIN), "s100_17");
    assert!(c100_18(), "c100_18");
    assert!(s100_18(i64::MAX - 1, 1), "s100_18");
    assert!(c100_19(), "c100_19");
    assert!(s100_19(i64::MAX - 1, -1), "s100_19");
    assert!(c100_20(), "c100_20");
    assert!(s100_20(i64::MAX - 1, i64::MIN), "s100_20");
    assert!(c101_0(), "c101_0");
    assert!(s101_0(0, 1), "s101_0");
    assert!(c101_1(), "c101_1");
    assert!(s101_1(0, -1), "s101_1");
    assert!(c101_2(), "c101_2");
    assert!(s101_2(0, i64::MIN), "s101_2");
    assert!(c101_3(), "c101_3");
    assert!(s101_3(1, 1), "s101_3");
    assert!(c101_4(), "c101_4");
    assert!(s101_4(1, -1), "s101_4");
    assert!(c101_5(), "c101_5");
    assert!(s101_5(1, i64::MIN), "s101_5");
    assert!(c101_6(), "c101_6");
    assert!(s101_6(-1, 1), "s101_6");
    assert!(c101_7(), "c101_7");
    assert!(s101_7(-1, -1), "s101_7");
    assert!(c101_8(), "c101_8");
    assert!(s101_8(-1, i64::MIN), "s101_8");
    assert!(c101_9(), "c101_9");
    assert!(s101_9(41, 1), "s101_9");
    assert!(c101_10(), "c101_10");
    assert!(s101_10(41, -1), "s101_10");
    assert!(c101_11(), "c101_11");
    assert!(s101_11(41, i64::MIN), "s101_11");
    assert!(c101_12(), "c101_12");
    assert!(s101_12(i64::MAX, 1), "s101_12");
    assert!(c101_13(), "c101_13");
    assert!(s101_13(i64::MAX, -1), "s101_13");
    assert!(c101_14(), "c101_14");
    assert!(s101_14(i64::MAX, i64::MIN), "s101_14");
    assert!(c101_15(), "c101_15");
    assert!(s101_15(i64::MIN, 1), "s101_15");
    assert!(c101_16(), "c101_16");
    assert!(s101_16(i64::MIN, -1), "s101_16");
    assert!(c101_17(), "c101_17");
    assert!(s101_17(i64::MIN, i64::MIN), "s101_17");
    assert!(c101_18(), "c101_18");
    assert!(s101_18(i64::MAX - 1, 1), "s101_18");
    assert!(c101_19(), "c101_19");
    assert!(s101_19(i64::MAX - 1, -1), "s101_19");
    assert!(c101_20(), "c101_20");
    assert!(s101_20(i64::MAX - 1, i64::MIN), "s101_20");
    assert!(c102_0(), "c102_0");
    assert!(s102_0(0, 1), "s102_0");
    assert!(c102_1(), "c102_1");
    assert!(s102_1(0, -1), "s102_1");
    assert!(c102_2(), "c102_2");
    assert!(s102_2(0, i64::MIN), "s102_2");
    assert!(c102_3(), "c102_3");
    assert!(s102_3(1, 1), "s102_3");
    assert!(c102_4(), "c102_4");
    assert!(s102_4(1, -1), "s102_4");
    assert!(c102_5(), "c102_5");
    assert!(s102_5(1, i64::MIN), "s102_5");
    assert!(c102_6(), "c102_6");
    assert!(s102_6(-1, 1), "s102_6");
    assert!(c102_7(), "c102_7");
    assert!(s102_7(-1, -1), "s102_7");
    assert!(c102_8(), "c102_8");
    assert!(s102_8(-1, i64::MIN), "s102_8");
    assert!(c102_9(), "c102_9");
    assert!(s102_9(41, 1), "s102_9");
    assert!(c102_10(), "c102_10");
    assert!(s102_10(41, -1), "s102_10");
    assert!(c102_11(), "c102_11");
    assert!(s102_11(41, i64::MIN), "s102_11");
    assert!(c102_12(), "c102_12");
    assert!(s102_12(i64::MAX, 1), "s102_12");
    assert!(c102_13(), "c102_13");
    assert!(s102_13(i64::MAX, -1), "s102_13");
    assert!(c102_14(), "c102_14");
    assert!(s102_14(i64::MAX, i64::MIN), "s102_14");
    assert!(c102_15(), "c102_15");
    assert!(s102_15(i64::MIN, 1), "s102_15");
    assert!(c102_16(), "c102_16");
    assert!(s102_16(i64::MIN, -1), "s102_16");
    assert!(c102_17(), "c102_17");
    assert!(s102_17(i64::MIN, i64::MIN), "s102_17");
    assert!(c102_18(), "c102_18");
    assert!(s102_18(i64::MAX - 1, 1), "s102_18");
    assert!(c102_19(), "c102_19");
    assert!(s102_19(i64::MAX - 1, -1), "s102_19");
    assert!(c102_20(), "c102_20");
    assert!(s102_20(i64::MAX - 1, i64::MIN), "s102_20");
    assert!(c103_0(), "c103_0");
    assert!(s103_0(0, 0), "s103_0");
    assert!(c103_1(), "c103_1");
    assert!(s103_1(0, 1), "s103_1");
    assert!(c103_2(), "c103_2");
    assert!(s103_2(0, 7), "s103_2");
    assert!(c103_3(), "c103_3");
    assert!(s103_3(0, u32::MAX), "s103_3");
    assert!(c103_4(), "c103_4");
    assert!(s103_4(1, 0), "s103_4");
    assert!(c103_5(), "c103_5");
    assert!(s103_5(1, 1), "s103_5");
    assert!(c103_6(), "c103_6");
    assert!(s103_6(1, 7), "s103_6");
    assert!(c103_7(), "c103_7");
    assert!(s103_7(1, u32::MAX), "s103_7");
    assert!(c103_8(), "c103_8");
    assert!(s103_8(7, 0), "s103_8");
    assert!(c103_9(), "c103_9");
    assert!(s103_9(7, 1), "s103_9");
    assert!(c103_10(), "c103_10");
    assert!(s103_10(7, 7), "s103_10");
    assert!(c103_11(), "c103_11");
    assert!(s103_11(7, u32::MAX), "s103_11");
    assert!(c103_12(), "c103_12");
    assert!(s103_12(u32::MAX, 0), "s103_12");
    assert!(c103_13(), "c103_13");
    assert!(s103_13(u32::MAX, 1), "s103_13");
    assert!(c103_14(), "c103_14");
    assert!(s103_14(u32::MAX, 7), "s103_14");
    assert!(c103_15(), "c103_15");
    assert!(s103_15(u32::MAX, u32::MAX), "s103_15");
    assert!(c104_0(), "c104_0");
    assert!(s104_0(0, 0), "s104_0");
    assert!(c104_1(), "c104_1");
    assert!(s104_1(0, 1), "s104_1");
    assert!(c104_2(), "c104_2");
    assert!(s104_2(0, 7), "s104_2");
    assert!(c104_3(), "c104_3");
    assert!(s104_3(0, u32::MAX), "s104_3");
    assert!(c104_4(), "c104_4");
    assert!(s104_4(1, 0), "s104_4");
    assert!(c104_5(), "c104_5");
    assert!(s104_5(1, 1), "s104_5");
    assert!(c104_6(), "c104_6");
    assert!(s104_6(1, 7), "s104_6");
    assert!(c104_7(), "c104_7");
    assert!(s104_7(1, u32::MAX), "s104_7");
    assert!(c104_8(), "c104_8");
    assert!(s104_8(7, 0), "s104_8");
    assert!(c104_9(), "c104_9");
    assert!(s104_9(7, 1), "s104_9");
    assert!(c104_10(), "c104_10");
    assert!(s104_10(7, 7), "s104_10");
    assert!(c104_11(), "c104_11");
    assert!(s104_11(7, u32::MAX), "s104_11");
    assert!(c104_12(), "c104_12");
    assert!(s104_12(u32::MAX, 0), "s104_12");
    assert!(c104_13(), "c104_13");
    assert!(s104_13(u32::MAX, 1), "s104_13");
    assert!(c104_14(), "c104_14");
    assert!(s104_14(u32::MAX, 7), "s104_14");
    assert!(c104_15(), "c104_15");
    assert!(s104_15(u32::MAX, u32::MAX), "s104_15");
    assert!(c105_0(), "c105_0");
    assert!(s105_0(0, 0), "s105_0");
    assert!(c105_1(), "c105_1");
    assert!(s105_1(0, 1), "s105_1");
    assert!(c105_2(), "c105_2");
    assert!(s105_2(0, 7), "s105_2");
    assert!(c105_3(), "c105_3");
    assert!(s105_3(0, u32::MAX), "s105_3");
    assert!(c105_4(), "c105_4");
    assert!(s105_4(1, 0), "s105_4");
    assert!(c105_5(), "c105_5");
    assert!(s105_5(1, 1), "s105_5");
    assert!(c105_6(), "c105_6");
    assert!(s105_6(1, 7), "s105_6");
    assert!(c105_7(), "c105_7");
    assert!(s105_7(1, u32::MAX), "s105_7");
    assert!(c105_8(), "c105_8");
    assert!(s105_8(7, 0), "s105_8");
    assert!(c105_9(), "c105_9");
    assert!(s105_9(7, 1), "s105_9");
    assert!(c105_10(), "c105_10");
    assert!(s105_10(7, 7), "s105_10");
    assert!(c105_11(), "c105_11");
    assert!(s105_11(7, u32::MAX), "s105_11");
    assert!(c105_12(), "c105_12");
    assert!(s105_12(u32::MAX, 0), "s105_12");
    assert!(c105_13(), "c105_13");
    assert!(s105_13(u32::MAX, 1), "s105_13");
    assert!(c105_14(), "c105_14");
    assert!(s105_14(u32::MAX, 7), "s105_14");
    assert!(c105_15(), "c105_15");
    assert!(s105_15(u32::MAX, u32::MAX), "s105_15");
    assert!(c106_0(), "c106_0");
    assert!(s106_0(0, 0), "s106_0");
    assert!(c106_1(), "c106_1");
    assert!(s106_1(0, 1), "s106_1");
    assert!(c106_2(), "c106_2");
    assert!(s106_2(0, 7), "s106_2");
    assert!(c106_3(), "c106_3");
    assert!(s106_3(0, u32::MAX), "s106_3");
    assert!(c106_4(), "c106_4");
    assert!(s106_4(1, 0), "s106_4");
    assert!(c106_5(), "c106_5");
    assert!(s106_5(1, 1), "s106_5");
    assert!(c106_6(), "c106_6");
    assert!(s106_6(1, 7), "s106_6");
    assert!(c106_7(), "c106_7");
    assert!(s106_7(1, u32::MAX), "s106_7");
    assert!(c106_8(), "c106_8");
    assert!(s106_8(7, 0), "s106_8");
    assert!(c106_9(), "c106_9");
    assert!(s106_9(7, 1), "s106_9");
    assert!(c106_10(), "c106_10");
    assert!(s106_10(7, 7), "s106_10");
    assert!(c106_11(), "c106_11");
    assert!(s106_11(7, u32::MAX), "s106_11");
    assert!(c106_12(), "c106_12");
    assert!(s106_12(u32::MAX, 0), "s106_12");
    assert!(c106_13(), "c106_13");
    assert!(s106_13(u32::MAX, 1), "s106_13");
    assert!(c106_14(), "c106_14");
    assert!(s106_14(u32::MAX, 7), "s106_14");
    assert!(c106_15(), "c106_15");
    assert!(s106_15(u32::MAX, u32::MAX), "s106_15");
    assert!(c107_0(), "c107_0");
    assert!(s107_0(0, 0), "s107_0");
    assert!(c107_1(), "c107_1");
    assert!(s107_1(0, 1), "s107_1");
    assert!(c107_2(), "c107_2");
    assert!(s107_2(0, 7), "s107_2");
    assert!(c107_3(), "c107_3");
    assert!(s107_3(0, u32::MAX), "s107_3");
    assert!(c107_4(), "c107_4");
    assert!(s107_4(1, 0), "s107_4");
    assert!(c107_5(), "c107_5");
    assert!(s107_5(1, 1), "s107_5");
    assert!(c107_6(), "c107_6");
    assert!(s107_6(1, 7), "s107_6");
    assert!(c107_7(), "c107_7");
    assert!(s107_7(1, u32::MAX), "s107_7");
    assert!(c107_8(), "c107_8");
    assert!(s107_8(7, 0), "s107_8");
    assert!(c107_9(), "c107_9");
    assert!(s107_9(7, 1), "s107_9");
    assert!(c107_10(), "c107_10");
    assert!(s107_10(7, 7), "s107_10");
    assert!(c107_11(), "c107_11");
    assert!(s107_11(7, u32::MAX), "s107_11");
    assert!(c107_12(), "c107_12");
    assert!(s107_12(u32::MAX, 0), "s107_12");
    assert!(c107_13(), "c107_13");
    assert!(s107_13(u32::MAX, 1), "s107_13");
    assert!(c107_14(), "c107_14");
    assert!(s107_14(u32::MAX, 7), "s107_14");
    assert!(c107_15(), "c107_15");
    assert!(s107_15(u32::MAX, u32::MAX), "s107_15");
    assert!(c108_0(), "c108_0");
    assert!(s108_0(0, 0), "s108_0");
    assert!(c108_1(), "c108_1");
    assert!(s108_1(0, 1), "s108_1");
    assert!(c108_2(), "c108_2");
    assert!(s108_2(0, 7), "s108_2");
    assert!(c108_3(), "c108_3");
    assert!(s108_3(0, u32::MAX), "s108_3");
    assert!(c108_4(), "c108_4");
    assert!(s108_4(1, 0), "s108_4");
    assert!(c108_5(), "c108_5");
    assert!(s108_5(1, 1), "s108_5");
    assert!(c108_6(), "c108_6");
    assert!(s108_6(1, 7), "s108_6");
    assert!(c108_7(), "c108_7");
    assert!(s108_7(1, u32::MAX), "s108_7");
    assert!(c108_8(), "c108_8");
    assert!(s108_8(7, 0), "s108_8");
    assert!(c108_9(), "c108_9");
    assert!(s108_9(7, 1), "s108_9");
    assert!(c108_10(), "c108_10");
    assert!(s108_10(7, 7), "s108_10");
    assert!(c108_11(), "c108_11");
    assert!(s108_11(7, u32::MAX), "s108_11");
    assert!(c108_12(), "c108_12");
    assert!(s108_12(u32::MAX, 0), "s108_12");
    assert!(c108_13(), "c108_13");
    assert!(s108_13(u32::MAX, 1), "s108_13");
    assert!(c108_14(), "c108_14");
    assert!(s108_14(u32::MAX, 7), "s108_14");
    assert!(c108_15(), "c108_15");
    assert!(s108_15(u32::MAX, u32::MAX), "s108_15");
    assert!(c109_0(), "c109_0");
    assert!(s109_0(0, 0), "s109_0");
    assert!(c109_1(), "c109_1");
    assert!(s109_1(0, 1), "s109_1");
    assert!(c109_2(), "c109_2");
    assert!(s109_2(0, 7), "s109_2");
    assert!(c109_3(), "c109_3");
    assert!(s109_3(0, u32::MAX), "s109_3");
    assert!(c109_4(), "c109_4");
    assert!(s109_4(1, 0), "s109_4");
    assert!(c109_5(), "c109_5");
    assert!(s109_5(1, 1), "s109_5");
    assert!(c109_6(), "c109_6");
    assert!(s109_6(1, 7), "s109_6");
    assert!(c109_7(), "c109_7");
    assert!(s109_7(1, u32::MAX), "s109_7");
    assert!(c109_8(), "c109_8");
    assert!(s109_8(7, 0), "s109_8");
    assert!(c109_9(), "c109_9");
    assert!(s109_9(7, 1), "s109_9");
    assert!(c109_10(), "c109_10");
    assert!(s109_10(7, 7), "s109_10");
    assert!(c109_11(), "c109_11");
    assert!(s109_11(7, u32::MAX), "s109_11");
    assert!(c109_12(), "c109_12");
    assert!(s109_12(u32::MAX, 0), "s109_12");
    assert!(c109_13(), "c109_13");
    assert!(s109_13(u32::MAX, 1), "s109_13");
    assert!(c109_14(), "c109_14");
    assert!(s109_14(u32::MAX, 7), "s109_14");
    assert!(c109_15(), "c109_15");
    assert!(s109_15(u32::MAX, u32::MAX), "s109_15");
    assert!(c110_0(), "c110_0");
    assert!(s110_0(0, 0), "s110_0");
    assert!(c110_1(), "c110_1");
    assert!(s110_1(0, 1), "s110_1");
    assert!(c110_2(), "c110_2");
    assert!(s110_2(0, 7), "s110_2");
    assert!(c110_3(), "c110_3");
    assert!(s110_3(0, u32::MAX), "s110_3");
    assert!(c110_4(), "c110_4");
    assert!(s110_4(1, 0), "s110_4");
    assert!(c110_5(), "c110_5");
    assert!(s110_5(1, 1), "s110_5");
    assert!(c110_6(), "c110_6");
    assert!(s110_6(1, 7), "s110_6");
    assert!(c110_7(), "c110_7");
    assert!(s110_7(1, u32::MAX), "s110_7");
    assert!(c110_8(), "c110_8");
    assert!(s110_8(7, 0), "s110_8");
    assert!(c110_9(), "c110_9");
    assert!(s110_9(7, 1), "s110_9");
    assert!(c110_10(), "c110_10");
    assert!(s110_10(7, 7), "s110_10");
    assert!(c110_11(), "c110_11");
    assert!(s110_11(7, u32::MAX), "s110_11");
    assert!(c110_12(), "c110_12");
    assert!(s110_12(u32::MAX, 0), "s110_12");
    assert!(c110_13(), "c110_13");
    assert!(s110_13(u32::MAX, 1), "s110_13");
    assert!(c110_14(), "c110_14");
    assert!(s110_14(u32::MAX, 7), "s110_14");
    assert!(c110_15(), "c110_15");
    assert!(s110_15(u32::MAX, u32::MAX), "s110_15");
    assert!(c111_0(), "c111_0");
    assert!(s111_0(0), "s111_0");
    assert!(c111_1(), "c111_1");
    assert!(s111_1(1), "s111_1");
    assert!(c111_2(), "c111_2");
    assert!(s111_2(-1), "s111_2");
    assert!(c111_3(), "c111_3");
    assert!(s111_3(41), "s111_3");
    assert!(c111_4(), "c111_4");
    assert!(s111_4(i64::MAX), "s111_4");
    assert!(c111_5(), "c111_5");
    assert!(s111_5(i64::MIN), "s111_5");
    assert!(c111_6(), "c111_6");
    assert!(s111_6(i64::MAX - 1), "s111_6");
    assert!(c112_0(), "c112_0");
    assert!(s112_0(0), "s112_0");
    assert!(c112_1(), "c112_1");
    assert!(s112_1(1), "s112_1");
    assert!(c112_2(), "c112_2");
    assert!(s112_2(-1), "s112_2");
    assert!(c112_3(), "c112_3");
    assert!(s112_3(41), "s112_3");
    assert!(c112_4(), "c112_4");
    assert!(s112_4(i64::MAX), "s112_4");
    assert!(c112_5(), "c112_5");
    assert!(s112_5(i64::MIN), "s112_5");
    assert!(c112_6(), "c112_6");
    assert!(s112_6(i64::MAX - 1), "s112_6");
    assert!(c113_0(), "c113_0");
    assert!(s113_0(0), "s113_0");
    assert!(c113_1(), "c113_1");
    assert!(s113_1(1), "s113_1");
    assert!(c113_2(), "c113_2");
    assert!(s113_2(-1), "s113_2");
    assert!(c113_3(), "c113_3");
    assert!(s113_3(41), "s113_3");
    assert!(c113_4(), "c113_4");
    assert!(s113_4(i64::MAX), "s113_4");
    assert!(c113_5(), "c113_5");
    assert!(s113_5(i64::MIN), "s113_5");
    assert!(c113_6(), "c113_6");
    assert!(s113_6(i64::MAX - 1), "s113_6");
    assert!(c114_0(), "c114_0");
    assert!(s114_0(0), "s114_0");
    assert!(c114_1(), "c114_1");
    assert!(s114_1(1), "s114_1");
    assert!(c114_2(), "c114_2");
    assert!(s114_2(-1), "s114_2");
    assert!(c114_3(), "c114_3");
    assert!(s114_3(41), "s114_3");
    assert!(c114_4(), "c114_4");
    assert!(s114_4(i64::MAX), "s114_4");
    assert!(c114_5(), "c114_5");
    assert!(s114_5(i64::MIN), "s114_5");
    assert!(c114_6(), "c114_6");
    assert!(s114_6(i64::MAX - 1), "s114_6");
    assert!(c115_0(), "c115_0");
    assert!(s115_0(0), "s115_0");
    assert!(c115_1(), "c115_1");
    assert!(s115_1(1), "s115_1");
    assert!(c115_2(), "c115_2");
    assert!(s115_2(-1), "s115_2");
    assert!(c115_3(), "c115_3");
    assert!(s115_3(41), "s115_3");
    assert!(c115_4(), "c115_4");
    assert!(s115_4(i64::MAX), "s115_4");
    assert!(c115_5(), "c115_5");
    assert!(s115_5(i64::MIN), "s115_5");
    assert!(c115_6(), "c115_6");
    assert!(s115_6(i64::MAX - 1), "s115_6");
    assert!(c116_0(), "c116_0");
    assert!(s116_0(0), "s116_0");
    assert!(c116_1(), "c116_1");
    assert!(s116_1(1), "s116_1");
    assert!(c116_2(), "c116_2");
    assert!(s116_2(-1), "s116_2");
    assert!(c116_3(), "c116_3");
    assert!(s116_3(41), "s116_3");
    assert!(c116_4(), "c116_4");
    assert!(s116_4(i64::MAX), "s116_4");
    assert!(c116_5(), "c116_5");
    assert!(s116_5(i64::MIN), "s116_5");
    assert!(c116_6(), "c116_6");
    assert!(s116_6(i64::MAX - 1), "s116_6");
    assert!(c117_0(), "c117_0");
    assert!(s117_0(0), "s117_0");
    assert!(c117_1(), "c117_1");
    assert!(s117_1(1), "s117_1");
    assert!(c117_2(), "c117_2");
    assert!(s117_2(-1), "s117_2");
    assert!(c117_3(), "c117_3");
    assert!(s117_3(41), "s117_3");
    assert!(c117_4(), "c117_4");
    assert!(s117_4(i64::MAX), "s117_4");
    assert!(c117_5(), "c117_5");
    assert!(s117_5(i64::MIN), "s117_5");
    assert!(c117_6(), "c117_6");
    assert!(s117_6(i64::MAX - 1), "s117_6");
    assert!(c118_0(), "c118_0");
    assert!(s118_0(0), "s118_0");
    assert!(c118_1(), "c118_1");
    assert!(s118_1(1), "s118_1");
    assert!(c118_2(), "c118_2");
    assert!(s118_2(-1), "s118_2");
    assert!(c118_3(), "c118_3");
    assert!(s118_3(41), "s118_3");
    assert!(c118_4(), "c118_4");
    assert!(s118_4(i64::MAX), "s118_4");
    assert!(c118_5(), "c118_5");
    assert!(s118_5(i64::MIN), "s118_5");
    assert!(c118_6(), "c118_6");
    assert!(s118_6(i64::MAX - 1), "s118_6");
    assert!(c119_0(), "c119_0");
    assert!(s119_0(0), "s119_0");
    assert!(c119_1(), "c119_1");
    assert!(s119_1(1), "s119_1");
    assert!(c119_2(), "c119_2");
    assert!(s119_2(-1), "s119_2");
    assert!(c119_3(), "c119_3");
    assert!(s119_3(41), "s119_3");
    assert!(c119_4(), "c119_4");
    assert!(s119_4(i64::MAX), "s119_4");
    assert!(c119_5(), "c119_5");
    assert!(s119_5(i64::MIN), "s119_5");
    assert!(c119_6(), "c119_6");
    assert!(s119_6(i64::MAX - 1), "s119_6");
    assert!(c120_0(), "c120_0");
    assert!(s120_0(0), "s120_0");
    assert!(c120_1(), "c120_1");
    assert!(s120_1(1), "s120_1");
    assert!(c120_2(), "c120_2");
    assert!(s120_2(-1), "s120_2");
    assert!(c120_3(), "c120_3");
    assert!(s120_3(41), "s120_3");
    assert!(c120_4(), "c120_4");
    assert!(s120_4(i64::MAX), "s120_4");
    assert!(c120_5(), "c120_5");
    assert!(s120_5(i64::MIN), "s120_5");
    assert!(c120_6(), "c120_6");
    assert!(s120_6(i64::MAX - 1), "s120_6");
    assert!(c121_0(), "c121_0");
    assert!(s121_0(0), "s121_0");
    assert!(c121_1(), "c121_1");
    assert!(s121_1(1), "s121_1");
    assert!(c121_2(), "c121_2");
    assert!(s121_2(-1), "s121_2");
    assert!(c121_3(), "c121_3");
    assert!(s121_3(41), "s121_3");
    assert!(c121_4(), "c121_4");
    assert!(s121_4(i64::MAX), "s121_4");
    assert!(c121_5(), "c121_5");
    assert!(s121_5(i64::MIN), "s121_5");
    assert!(c121_6(), "c121_6");
    assert!(s121_6(i64::MAX - 1), "s121_6");
    assert!(c122_0(), "c122_0");
    assert!(s122_0(0), "s122_0");
    assert!(c122_1(), "c122_1");
    assert!(s122_1(1), "s122_1");
    assert!(c122_2(), "c122_2");
    assert!(s122_2(-1), "s122_2");
    assert!(c122_3(), "c122_3");
    assert!(s122_3(41), "s122_3");
    assert!(c122_4(), "c122_4");
    assert!(s122_4(i64::MAX), "s122_4");
    assert!(c122_5(), "c122_5");
    assert!(s122_5(i64::MIN), "s122_5");
    assert!(c122_6(), "c122_6");
    assert!(s122_6(i64::MAX - 1), "s122_6");
    assert!(c123_0(), "c123_0");
    assert!(s123_0(0), "s123_0");
    assert!(c123_1(), "c123_1");
    assert!(s123_1(1), "s123_1");
    assert!(c123_2(), "c123_2");
    assert!(s123_2(-1), "s123_2");
    assert!(c123_3(), "c123_3");
    assert!(s123_3(41), "s123_3");
    assert!(c123_4(), "c123_4");
    assert!(s123_4(i64::MAX), "s123_4");
    assert!(c123_5(), "c123_5");
    assert!(s123_5(i64::MIN), "s123_5");
    assert!(c123_6(), "c123_6");
    assert!(s123_6(i64::MAX - 1), "s123_6");
    assert!(c124_0(), "c124_0");
    assert!(s124_0(0), "s124_0");
    assert!(c124_1(), "c124_1");
    assert!(s124_1(1), "s124_1");
    assert!(c124_2(), "c124_2");
    assert!(s124_2(-1), "s124_2");
    assert!(c124_3(), "c124_3");
    assert!(s124_3(41), "s124_3");
    assert!(c124_4(), "c124_4");
    assert!(s124_4(i64::MAX), "s124_4");
    assert!(c124_5(), "c124_5");
    assert!(s124_5(i64::MIN), "s124_5");
    assert!(c124_6(), "c124_6");
    assert!(s124_6(i64::MAX - 1), "s124_6");
    assert!(c125_0(), "c125_0");
    assert!(s125_0(0), "s125_0");
    assert!(c125_1(), "c125_1");
    assert!(s125_1(1), "s125_1");
    assert!(c125_2(), "c125_2");
    assert!(s125_2(-1), "s125_2");
    assert!(c125_3(), "c125_3");
    assert!(s125_3(41), "s125_3");
    assert!(c125_4(), "c125_4");
    assert!(s125_4(i64::MAX), "s125_4");
    assert!(c125_5(), "c125_5");
    assert!(s125_5(i64::MIN), "s125_5");
    assert!(c125_6(), "c125_6");
    assert!(s125_6(i64::MAX - 1), "s125_6");
    assert!(c126_0(), "c126_0");
    assert!(s126_0(0), "s126_0");
    assert!(c126_1(), "c126_1");
    assert!(s126_1(1), "s126_1");
    assert!(c126_2(), "c126_2");
    assert!(s126_2(-1), "s126_2");
    assert!(c126_3(), "c126_3");
    assert!(s126_3(41), "s126_3");
    assert!(c126_4(), "c126_4");
    assert!(s126_4(i64::MAX), "s126_4");
    assert!(c126_5(), "c126_5");
    assert!(s126_5(i64::MIN), "s126_5");
    assert!(c126_6(), "c126_6");
    assert!(s126_6(i64::MAX - 1), "s126_6");
    assert!(c127_0(), "c127_0");
    assert!(s127_0(0), "s127_0");
    assert!(c127_1(), "c127_1");
    assert!(s127_1(1), "s127_1");
    assert!(c127_2(), "c127_2");
    assert!(s127_2(-1), "s127_2");
    assert!(c127_3(), "c127_3");
    assert!(s127_3(41), "s127_3");
    assert!(c127_4(), "c127_4");
    assert!(s127_4(i64::MAX), "s127_4");
    assert!(c127_5(), "c127_5");
    assert!(s127_5(i64::MIN), "s127_5");
    assert!(c127_6(), "c127_6");
    assert!(s127_6(i64::MAX - 1), "s127_6");
    assert!(c128_0(), "c128_0");
    assert!(s128_0(0), "s128_0");
    assert!(c128_1(), "c128_1");
    assert!(s128_1(1), "s128_1");
    assert!(c128_2(), "c128_2");
    assert!(s128_2(-1), "s128_2");
    assert!(c128_3(), "c128_3");
    assert!(s128_3(41), "s128_3");
    assert!(c128_4(), "c128_4");
    assert!(s128_4(i64::MAX), "s128_4");
    assert!(c128_5(), "c128_5");
    assert!(s128_5(i64::MIN), "s128_5");
    assert!(c128_6(), "c128_6");
    assert!(s128_6(i64::MAX - 1), "s128_6");
    assert!(c129_0(), "c129_0");
    assert!(s129_0(0), "s129_0");
    assert!(c129_1(), "c129_1");
    assert!(s129_1(1), "s129_1");
    assert!(c129_2(), "c129_2");
    assert!(s129_2(-1), "s129_2");
    assert!(c129_3(), "c129_3");
    assert!(s129_3(41), "s129_3");
    assert!(c129_4(), "c129_4");
    assert!(s129_4(i64::MAX), "s129_4");
    assert!(c129_5(), "c129_5");
    assert!(s129_5(i64::MIN), "s129_5");
    assert!(c129_6(), "c129_6");
    assert!(s129_6(i64::MAX - 1), "s129_6");
    assert!(c130_0(), "c130_0");
    assert!(s130_0(0), "s130_0");
    assert!(c130_1(), "c130_1");
    assert!(s130_1(1), "s130_1");
    assert!(c130_2(), "c130_2");
    assert!(s130_2(-1), "s130_2");
    assert!(c130_3(), "c130_3");
    assert!(s130_3(41), "s130_3");
    assert!(c130_4(), "c130_4");
    assert!(s130_4(i64::MAX), "s130_4");
    assert!(c130_5(), "c130_5");
    assert!(s130_5(i64::MIN), "s130_5");
    assert!(c130_6(), "c130_6");
    assert!(s130_6(i64::MAX - 1), "s130_6");
    assert!(c131_0(), "c131_0");
    assert!(s131_0(0), "s131_0");
    assert!(c131_1(), "c131_1");
    assert!(s131_1(1), "s131_1");
    assert!(c131_2(), "c131_2");
    assert!(s131_2(-1), "s131_2");
    assert!(c131_3(), "c131_3");
    assert!(s131_3(41), "s131_3");
    assert!(c131_4(), "c131_4");
    assert!(s131_4(i64::MAX), "s131_4");
    assert!(c131_5(), "c131_5");
    assert!(s131_5(i64::MIN), "s131_5");
    assert!(c131_6(), "c131_6");
    assert!(s131_6(i64::MAX - 1), "s131_6");
    assert!(c132_0(), "c132_0");
    assert!(s132_0(0), "s132_0");
    assert!(c132_1(), "c132_1");
    assert!(s132_1(1), "s132_1");
    assert!(c132_2(), "c132_2");
    assert!(s132_2(-1), "s132_2");
    assert!(c132_3(), "c132_3");
    assert!(s132_3(41), "s132_3");
    assert!(c132_4(), "c132_4");
    assert!(s132_4(i64::MAX), "s132_4");
    assert!(c132_5(), "c132_5");
    assert!(s132_5(i64::MIN), "s132_5");
    assert!(c132_6(), "c132_6");
    assert!(s132_6(i64::MAX - 1), "s132_6");
    assert!(c133_0(), "c133_0");
    assert!(c133_1(), "c133_1");
    assert!(c133_2(), "c133_2");
    assert!(c134_0(), "c134_0");
    assert!(s134_0(0), "s134_0");
    assert!(c134_1(), "c134_1");
    assert!(s134_1(1), "s134_1");
    assert!(c134_2(), "c134_2");
    assert!(s134_2(200), "s134_2");
    assert!(c134_3(), "c134_3");
    assert!(s134_3(255), "s134_3");
    assert!(c135_0(), "c135_0");
    assert!(s135_0(0), "s135_0");
    assert!(c135_1(), "c135_1");
    assert!(s135_1(1), "s135_1");
    assert!(c135_2(), "c135_2");
    assert!(s135_2(200), "s135_2");
    assert!(c135_3(), "c135_3");
    assert!(s135_3(255), "s135_3");
    assert!(c136_0(), "c136_0");
    assert!(s136_0(0), "s136_0");
    assert!(c136_1(), "c136_1");
    assert!(s136_1(1), "s136_1");
    assert!(c136_2(), "c136_2");
    assert!(s136_2(200), "s136_2");
    assert!(c136_3(), "c136_3");
    assert!(s136_3(255), "s136_3");
    assert!(c137_0(), "c137_0");
    assert!(s137_0(0), "s137_0");
    assert!(c137_1(), "c137_1");
    assert!(s137_1(1), "s137_1");
    assert!(c137_2(), "c137_2");
    assert!(s137_2(200), "s137_2");
    assert!(c137_3(), "c137_3");
    assert!(s137_3(255), "s137_3");
    assert!(c138_0(), "c138_0");
    assert!(s138_0(0), "s138_0");
    assert!(c138_1(), "c138_1");
    assert!(s138_1(1), "s138_1");
    assert!(c138_2(), "c138_2");
    assert!(s138_2(200), "s138_2");
    assert!(c138_3(), "c138_3");
    assert!(s138_3(255), "s138_3");
    assert!(c139_0(), "c139_0");
    assert!(s139_0(0), "s139_0");
    assert!(c139_1(), "c139_1");
    assert!(s139_1(1), "s139_1");
    assert!(c139_2(), "c139_2");
    assert!(s139_2(-1), "s139_2");
    assert!(c139_3(), "c139_3");
    assert!(s139_3(41), "s139_3");
    assert!(c139_4(), "c139_4");
    assert!(s139_4(i64::MAX), "s139_4");
    assert!(c139_5(), "c139_5");
    assert!(s139_5(i64::MIN), "s139_5");
    assert!(c139_6(), "c139_6");
    assert!(s139_6(i64::MAX - 1), "s139_6");
    assert!(c140_0(), "c140_0");
    assert!(s140_0(0), "s140_0");
    assert!(c140_1(), "c140_1");
    assert!(s140_1(1), "s140_1");
    assert!(c140_2(), "c140_2");
    assert!(s140_2(-1), "s140_2");
    assert!(c140_3(), "c140_3");
    assert!(s140_3(41), "s140_3");
    assert!(c140_4(), "c140_4");
    assert!(s140_4(i64::MAX), "s140_4");
    assert!(c140_5(), "c140_5");
    assert!(s140_5(i64::MIN), "s140_5");
    assert!(c140_6(), "c140_6");
    assert!(s140_6(i64::MAX - 1), "s140_6");
    assert!(c141_0(), "c141_0");
    assert!(s141_0(0), "s141_0");
    assert!(c141_1(), "c141_1");
    assert!(s141_1(1), "s141_1");
    assert!(c141_2(), "c141_2");
    assert!(s141_2(-1), "s141_2");
    assert!(c141_3(), "c141_3");
    assert!(s141_3(41), "s141_3");
    assert!(c141_4(), "c141_4");
    assert!(s141_4(i64::MAX), "s141_4");
    assert!(c141_5(), "c141_5");
    assert!(s141_5(i64::MIN), "s141_5");
    assert!(c141_6(), "c141_6");
    assert!(s141_6(i64::MAX - 1), "s141_6");
    assert!(c142_0(), "c142_0");
    assert!(s142_0(0, true), "s142_0");
    assert!(c142_1(), "c142_1");
    assert!(s142_1(0, false), "s142_1");
    assert!(c142_2(), "c142_2");
    assert!(s142_2(1, true), "s142_2");
    assert!(c142_3(), "c142_3");
    assert!(s142_3(1, false), "s142_3");
    assert!(c142_4(), "c142_4");
    assert!(s142_4(7, true), "s142_4");
    assert!(c142_5(), "c142_5");
    assert!(s142_5(7, false), "s142_5");
    assert!(c142_6(), "c142_6");
    assert!(s142_6(u32::MAX, true), "s142_6");
    assert!(c142_7(), "c142_7");
    assert!(s142_7(u32::MAX, false), "s142_7");
    assert!(c143_0(), "c143_0");
    assert!(s143_0(0), "s143_0");
    assert!(c143_1(), "c143_1");
    assert!(s143_1(1), "s143_1");
    assert!(c143_2(), "c143_2");
    assert!(s143_2(7), "s143_2");
    assert!(c143_3(), "c143_3");
    assert!(s143_3(u32::MAX), "s143_3");
    assert!(c144_0(), "c144_0");
    assert!(s144_0(0), "s144_0");
    assert!(c144_1(), "c144_1");
    assert!(s144_1(1), "s144_1");
    assert!(c144_2(), "c144_2");
    assert!(s144_2(7), "s144_2");
    assert!(c144_3(), "c144_3");
    assert!(s144_3(u32::MAX), "s144_3");
    assert!(c145_0(), "c145_0");
    assert!(c145_1(), "c145_1");
    assert!(c145_2(), "c145_2");
    assert!(c145_3(), "c145_3");
    assert!(c146_0(), "c146_0");
    assert!(c146_1(), "c146_1");
    assert!(c146_2(), "c146_2");
    assert!(c146_3(), "c146_3");
    assert!(c147_0(), "c147_0");
    assert!(c147_1(), "c147_1");
    assert!(c147_2(), "c147_2");
    assert!(c147_3(), "c147_3");
    assert!(c148_0(), "c148_0");
    assert!(c148_1(), "c148_1");
    assert!(c148_2(), "c148_2");
    assert!(c148_3(), "c148_3");
    assert!(c149_0(), "c149_0");
    assert!(c149_1(), "c149_1");
    assert!(c149_2(), "c149_2");
    assert!(c149_3(), "c149_3");
    assert!(c150_0(), "c150_0");
    assert!(c150_1(), "c150_1");
    assert!(c150_2(), "c150_2");
    assert!(c150_3(), "c150_3");
    assert!(c151_0(), "c151_0");
    assert!(c151_1(), "c151_1");
    assert!(c151_2(), "c151_2");
    assert!(c151_3(), "c151_3");
    assert!(c152_0(), "c152_0");
    assert!(c152_1(), "c152_1");
    assert!(c152_2(), "c152_2");
    assert!(c152_3(), "c152_3");
    assert!(c153_0(), "c153_0");
    assert!(c153_1(), "c153_1");
    assert!(c153_2(), "c153_2");
    assert!(c153_3(), "c153_3");
    assert!(c154_0(), "c154_0");
    assert!(c154_1(), "c154_1");
    assert!(c154_2(), "c154_2");
    assert!(c154_3(), "c154_3");
    assert!(c155_0(), "c155_0");
    assert!(c155_1(), "c155_1");
    assert!(c155_2(), "c155_2");
    assert!(c155_3(), "c155_3");
    assert!(c156_0(), "c156_0");
    assert!(c156_1(), "c156_1");
    assert!(c156_2(), "c156_2");
    assert!(c156_3(), "c156_3");
    assert!(c157_0(), "c157_0");
    assert!(c157_1(), "c157_1");
    assert!(c157_2(), "c157_2");
    assert!(c157_3(), "c157_3");
    assert!(c158_0(), "c158_0");
    assert!(c158_1(), "c158_1");
    assert!(c158_2(), "c158_2");
    assert!(c158_3(), "c158_3");
    assert!(c159_0(), "c159_0");
    assert!(c159_1(), "c159_1");
    assert!(c159_2(), "c159_2");
    assert!(c159_3(), "c159_3");
    assert!(c160_0(), "c160_0");
    assert!(c160_1(), "c160_1");
    assert!(c160_2(), "c160_2");
    assert!(c160_3(), "c160_3");
    assert!(c161_0(), "c161_0");
    assert!(c161_1(), "c161_1");
    assert!(c161_2(), "c161_2");
    assert!(c161_3(), "c161_3");
    assert!(c162_0(), "c162_0");
    assert!(c162_1(), "c162_1");
    assert!(c162_2(), "c162_2");
    assert!(c162_3(), "c162_3");
    assert!(c163_0(), "c163_0");
    assert!(c163_1(), "c163_1");
    assert!(c163_2(), "c163_2");
    assert!(c163_3(), "c163_3");
    assert!(c164_0(), "c164_0");
    assert!(c164_1(), "c164_1");
    assert!(c164_2(), "c164_2");
    assert!(c164_3(), "c164_3");
    assert!(c165_0(), "c165_0");
    assert!(c165_1(), "c165_1");
    assert!(c165_2(), "c165_2");
    assert!(c165_3(), "c165_3");
    assert!(c166_0(), "c166_0");
    assert!(c166_1(), "c166_1");
    assert!(c166_2(), "c166_2");
    assert!(c166_3(), "c166_3");
    assert!(c167_0(), "c167_0");
    assert!(c167_1(), "c167_1");
    assert!(c167_2(), "c167_2");
    assert!(c167_3(), "c167_3");
    assert!(c168_0(), "c168_0");
    assert!(c168_1(), "c168_1");
    assert!(c168_2(), "c168_2");
    assert!(c168_3(), "c168_3");
    assert!(c169_0(), "c169_0");
    assert!(c169_1(), "c169_1");
    assert!(c169_2(), "c169_2");
    assert!(c169_3(), "c169_3");
    assert!(c170_0(), "c170_0");
    assert!(c170_1(), "c170_1");
    assert!(c170_2(), "c170_2");
    assert!(c170_3(), "c170_3");
    assert!(c171_0(), "c171_0");
    assert!(c171_1(), "c171_1");
    assert!(c171_2(), "c171_2");
    assert!(c171_3(), "c171_3");
    assert!(c172_0(), "c172_0");
    assert!(c172_1(), "c172_1");
    assert!(c172_2(), "c172_2");
    assert!(c172_3(), "c172_3");
    assert!(c173_0(), "c173_0");
    assert!(c173_1(), "c173_1");
    assert!(c173_2(), "c173_2");
    assert!(c173_3(), "c173_3");
    assert!(c174_0(), "c174_0");
    assert!(c174_1(), "c174_1");
    assert!(c174_2(), "c174_2");
    assert!(c174_3(), "c174_3");
    assert!(c175_0(), "c175_0");
    assert!(c175_1(), "c175_1");
    assert!(c175_2(), "c175_2");
    assert!(c175_3(), "c175_3");
    assert!(c176_0(), "c176_0");
    assert!(c176_1(), "c176_1");
    assert!(c176_2(), "c176_2");
    assert!(c177_0(), "c177_0");
    assert!(c177_1(), "c177_1");
    assert!(c177_2(), "c177_2");
    assert!(c178_0(), "c178_0");
    assert!(c178_1(), "c178_1");
    assert!(c178_2(), "c178_2");
    assert!(c179_0(), "c179_0");
    assert!(c179_1(), "c179_1");
    assert!(c179_2(), "c179_2");
    assert!(c180_0(), "c180_0");
    assert!(c180_1(), "c180_1");
    assert!(c180_2(), "c180_2");
    assert!(c181_0(), "c181_0");
    assert!(c181_1(), "c181_1");
    assert!(c181_2(), "c181_2");
    assert!(c182_0(), "c182_0");
    assert!(c182_1(), "c182_1");
    assert!(c182_2(), "c182_2");
    assert!(c183_0(), "c183_0");
    assert!(c183_1(), "c183_1");
    assert!(c183_2(), "c183_2");
    assert!(c184_0(), "c184_0");
    assert!(c184_1(), "c184_1");
    assert!(c184_2(), "c184_2");
    assert!(c185_0(), "c185_0");
    assert!(c185_1(), "c185_1");
    assert!(c185_2(), "c185_2");
    assert!(c186_0(), "c186_0");
    assert!(c186_1(), "c186_1");
    assert!(c186_2(), "c186_2");
    assert!(c187_0(), "c187_0");
    assert!(c187_1(), "c187_1");
    assert!(c187_2(), "c187_2");
    assert!(c188_0(), "c188_0");
    assert!(c188_1(), "c188_1");
    assert!(c188_2(), "c188_2");
    assert!(c189_0(), "c189_0");
    assert!(c189_1(), "c189_1");
    assert!(c189_2(), "c189_2");
    assert!(c190_0(), "c190_0");
    assert!(s190_0(true), "s190_0");
    assert!(c190_1(), "c190_1");
    assert!(s190_1(false), "s190_1");
    assert!(c191_0(), "c191_0");
    assert!(s191_0(true), "s191_0");
    assert!(c191_1(), "c191_1");
    assert!(s191_1(false), "s191_1");
    assert!(c192_0(), "c192_0");
    assert!(c192_1(), "c192_1");
    assert!(c192_2(), "c192_2");
    assert!(c192_3(), "c192_3");
    assert!(c192_4(), "c192_4");
    assert!(c193_0(), "c193_0");
    assert!(c193_1(), "c193_1");
    assert!(c193_2(), "c193_2");
    assert!(c193_3(), "c193_3");
    assert!(c193_4(), "c193_4");
    assert!(c194_0(), "c194_0");
    assert!(c194_1(), "c194_1");
    assert!(c194_2(), "c194_2");
    assert!(c194_3(), "c194_3");
    assert!(c194_4(), "c194_4");
    assert!(c195_0(), "c195_0");
    assert!(c195_1(), "c195_1");
    assert!(c195_2(), "c195_2");
    assert!(c195_3(), "c195_3");
    assert!(c195_4(), "c195_4");
    assert!(c196_0(), "c196_0");
    assert!(c196_1(), "c196_1");
    assert!(c196_2(), "c196_2");
    assert!(c196_3(), "c196_3");
    assert!(c196_4(), "c196_4");
    assert!(c197_0(), "c197_0");
    assert!(c197_1(), "c197_1");
    assert!(c197_2(), "c197_2");
    assert!(c197_3(), "c197_3");
    assert!(c197_4(), "c197_4");
    assert!(c198_0(), "c198_0");
    assert!(c198_1(), "c198_1");
    assert!(c198_2(), "c198_2");
    assert!(c198_3(), "c198_3");
    assert!(c198_4(), "c198_4");
    assert!(c199_0(), "c199_0");
    assert!(c199_1(), "c199_1");
    assert!(c199_2(), "c199_2");
    assert!(c199_3(), "c199_3");
    assert!(c199_4(), "c199_4");
    assert!(c200_0(), "c200_0");
    assert!(c200_1(), "c200_1");
    assert!(c200_2(), "c200_2");
    assert!(c200_3(), "c200_3");
    assert!(c200_4(), "c200_4");
    assert!(c201_0(), "c201_0");
    assert!(c201_1(), "c201_1");
    assert!(c201_2(), "c201_2");
    assert!(c201_3(), "c201_3");
    assert!(c201_4(), "c201_4");
    assert!(c202_0(), "c202_0");
    assert!(c202_1(), "c202_1");
    assert!(c202_2(), "c202_2");
    assert!(c202_3(), "c202_3");
    assert!(c202_4(), "c202_4");
    assert!(c203_0(), "c203_0");
    assert!(c203_1(), "c203_1");
    assert!(c203_2(), "c203_2");
    assert!(c203_3(), "c203_3");
    assert!(c203_4(), "c203_4");
    assert!(c204_0(), "c204_0");
    assert!(c204_1(), "c204_1");
    assert!(c204_2(), "c204_2");
    assert!(c204_3(), "c204_3");
    assert!(c204_4(), "c204_4");
    assert!(c205_0(), "c205_0");
    assert!(c205_1(), "c205_1");
    assert!(c205_2(), "c205_2");
    assert!(c205_3(), "c205_3");
    assert!(c205_4(), "c205_4");
    assert!(c206_0(), "c206_0");
    assert!(c206_1(), "c206_1");
    assert!(c206_2(), "c206_2");
    assert!(c206_3(), "c206_3");
    assert!(c206_4(), "c206_4");
    assert!(c207_0(), "c207_0");
    assert!(c207_1(), "c207_1");
    assert!(c207_2(), "c207_2");
    assert!(c207_3(), "c207_3");
    assert!(c207_4(), "c207_4");
    assert!(c208_0(), "c208_0");
    assert!(c208_1(), "c208_1");
    assert!(c208_2(), "c208_2");
    assert!(c208_3(), "c208_3");
    assert!(c208_4(), "c208_4");
    assert!(c209_0(), "c209_0");
    assert!(c209_1(), "c209_1");
    assert!(c209_2(), "c209_2");
    assert!(c209_3(), "c209_3");
    assert!(c209_4(), "c209_4");
    assert!(c210_0(), "c210_0");
    assert!(c210_1(), "c210_1");
    assert!(c210_2(), "c210_2");
    assert!(c210_3(), "c210_3");
    assert!(c210_4(), "c210_4");
    assert!(c211_0(), "c211_0");
    assert!(c211_1(), "c211_1");
    assert!(c211_2(), "c211_2");
    assert!(c211_3(), "c211_3");
    assert!(c211_4(), "c211_4");
    assert!(c212_0(), "c212_0");
    assert!(c212_1(), "c212_1");
    assert!(c212_2(), "c212_2");
    assert!(c212_3(), "c212_3");
    assert!(c212_4(), "c212_4");
    assert!(c213_0(), "c213_0");
    assert!(c213_1(), "c213_1");
    assert!(c213_2(), "c213_2");
    assert!(c213_3(), "c213_3");
    assert!(c213_4(), "c213_4");
    assert!(c214_0(), "c214_0");
    assert!(c214_1(), "c214_1");
    assert!(c214_2(), "c214_2");
    assert!(c214_3(), "c214_3");
    assert!(c214_4(), "c214_4");
    assert!(c215_0(), "c215_0");
    assert!(c215_1(), "c215_1");
    assert!(c215_2(), "c215_2");
    assert!(c215_3(), "c215_3");
    assert!(c215_4(), "c215_4");
    assert!(c216_0(), "c216_0");
    assert!(c216_1(), "c216_1");
    assert!(c216_2(), "c216_2");
    assert!(c216_3(), "c216_3");
    assert!(c216_4(), "c216_4");
    assert!(c217_0(), "c217_0");
    assert!(c217_1(), "c217_1");
    assert!(c217_2(), "c217_2");
    assert!(c217_3(), "c217_3");
    assert!(c217_4(), "c217_4");
    assert!(c218_0(), "c218_0");
    assert!(c218_1(), "c218_1");
    assert!(c218_2(), "c218_2");
    assert!(c218_3(), "c218_3");
    assert!(c218_4(), "c218_4");
    assert!(c219_0(), "c219_0");
    assert!(c219_1(), "c219_1");
    assert!(c219_2(), "c219_2");
    assert!(c219_3(), "c219_3");
    assert!(c219_4(), "c219_4");
    assert!(c220_0(), "c220_0");
    assert!(c220_1(), "c220_1");
    assert!(c220_2(), "c220_2");
    assert!(c220_3(), "c220_3");
    assert!(c220_4(), "c220_4");
    assert!(c221_0(), "c221_0");
    assert!(c221_1(), "c221_1");
    assert!(c221_2(), "c221_2");
    assert!(c221_3(), "c221_3");
    assert!(c221_4(), "c221_4");
    assert!(c222_0(), "c222_0");
    assert!(c222_1(), "c222_1");
    assert!(c222_2(), "c222_2");
    assert!(c222_3(), "c222_3");
    assert!(c222_4(), "c222_4");
    assert!(c223_0(), "c223_0");
    assert!(c223_1(), "c223_1");
    assert!(c223_2(), "c223_2");
    assert!(c223_3(), "c223_3");
    assert!(c223_4(), "c223_4");
    assert!(c224_0(), "c224_0");
    assert!(c224_1(), "c224_1");
    assert!(c224_2(), "c224_2");
    assert!(c224_3(), "c224_3");
    assert!(c224_4(), "c224_4");
    assert!(c225_0(), "c225_0");
    assert!(c225_1(), "c225_1");
    assert!(c225_2(), "c225_2");
    assert!(c225_3(), "c225_3");
    assert!(c225_4(), "c225_4");
    assert!(c226_0(), "c226_0");
    assert!(c226_1(), "c226_1");
    assert!(c226_2(), "c226_2");
    assert!(c226_3(), "c226_3");
    assert!(c226_4(), "c226_4");
    assert!(c227_0(), "c227_0");
    assert!(c227_1(), "c227_1");
    assert!(c227_2(), "c227_2");
    assert!(c227_3(), "c227_3");
    assert!(c227_4(), "c227_4");
    assert!(c228_0(), "c228_0");
    assert!(c228_1(), "c228_1");
    assert!(c228_2(), "c228_2");
    assert!(c228_3(), "c228_3");
    assert!(c228_4(), "c228_4");
    assert!(c229_0(), "c229_0");
    assert!(c229_1(), "c229_1");
    assert!(c229_2(), "c229_2");
    assert!(c229_3(), "c229_3");
    assert!(c229_4(), "c229_4");
    assert!(c230_0(), "c230_0");
    assert!(c230_1(), "c230_1");
    assert!(c230_2(), "c230_2");
    assert!(c230_3(), "c230_3");
    assert!(c230_4(), "c230_4");
    assert!(c231_0(), "c231_0");
    assert!(c231_1(), "c231_1");
    assert!(c231_2(), "c231_2");
    assert!(c231_3(), "c231_3");
    assert!(c231_4(), "c231_4");
    assert!(c232_0(), "c232_0");
    assert!(c232_1(), "c232_1");
    assert!(c232_2(), "c232_2");
    assert!(c232_3(), "c232_3");
    assert!(c232_4(), "c232_4");
    assert!(c233_0(), "c233_0");
    assert!(c233_1(), "c233_1");
    assert!(c233_2(), "c233_2");
    assert!(c233_3(), "c233_3");
    assert!(c233_4(), "c233_4");
    assert!(c234_0(), "c234_0");
    assert!(c234_1(), "c234_1");
    assert!(c234_2(), "c234_2");
    assert!(c234_3(), "c234_3");
    assert!(c234_4(), "c234_4");
    assert!(c235_0(), "c235_0");
    assert!(c235_1(), "c235_1");
    assert!(c235_2(), "c235_2");
    assert!(c235_3(), "c235_3");
    assert!(c235_4(), "c235_4");
    assert!(c236_0(), "c236_0");
    assert!(c236_1(), "c236_1");
    assert!(c236_2(), "c236_2");
    assert!(c236_3(), "c236_3");
    assert!(c236_4(), "c236_4");
    assert!(c237_0(), "c237_0");
    assert!(c237_1(), "c237_1");
    assert!(c237_2(), "c237_2");
    assert!(c237_3(), "c237_3");
    assert!(c237_4(), "c237_4");
    assert!(c238_0(), "c238_0");
    assert!(c238_1(), "c238_1");
    assert!(c238_2(), "c238_2");
    assert!(c238_3(), "c238_3");
    assert!(c238_4(), "c238_4");
    assert!(c239_0(), "c239_0");
    assert!(c239_1(), "c239_1");
    assert!(c239_2(), "c239_2");
    assert!(c239_3(), "c239_3");
    assert!(c239_4(), "c239_4");
    assert!(c240_0(), "c240_0");
    assert!(c240_1(), "c240_1");
    assert!(c240_2(), "c240_2");
    assert!(c240_3(), "c240_3");
    assert!(c240_4(), "c240_4");
    assert!(c241_0(), "c241_0");
    assert!(c241_1(), "c241_1");
    assert!(c241_2(), "c241_2");
    assert!(c241_3(), "c241_3");
    assert!(c241_4(), "c241_4");
    assert!(c242_0(), "c242_0");
    assert!(c242_1(), "c242_1");
    assert!(c242_2(), "c242_2");
    assert!(c242_3(), "c242_3");
    assert!(c242_4(), "c242_4");
    assert!(c243_0(), "c243_0");
    assert!(c243_1(), "c243_1");
    assert!(c243_2(), "c243_2");
    assert!(c243_3(), "c243_3");
    assert!(c243_4(), "c243_4");
    assert!(c244_0(), "c244_0");
    assert!(c244_1(), "c244_1");
    assert!(c244_2(), "c244_2");
    assert!(c244_3(), "c244_3");
    assert!(c244_4(), "c244_4");
    assert!(c245_0(), "c245_0");
    assert!(c245_1(), "c245_1");
    assert!(c245_2(), "c245_2");
    assert!(c245_3(), "c245_3");
    assert!(c245_4(), "c245_4");
    assert!(c246_0(), "c246_0");
    assert!(c246_1(), "c246_1");
    assert!(c246_2(), "c246_2");
    assert!(c246_3(), "c246_3");
    assert!(c246_4(), "c246_4");
    assert!(c247_0(), "c247_0");
    assert!(c247_1(), "c247_1");
    assert!(c247_2(), "c247_2");
    assert!(c247_3(), "c247_3");
    assert!(c247_4(), "c247_4");
    assert!(c248_0(), "c248_0");
    assert!(c248_1(), "c248_1");
    assert!(c248_2(), "c248_2");
    assert!(c248_3(), "c248_3");
    assert!(c248_4(), "c248_4");
    assert!(c249_0(), "c249_0");
    assert!(c249_1(), "c249_1");
    assert!(c249_2(), "c249_2");
    assert!(c249_3(), "c249_3");
    assert!(c249_4(), "c249_4");
    assert!(c250_0(), "c250_0");
    assert!(c250_1(), "c250_1");
    assert!(c250_2(), "c250_2");
    assert!(c250_3(), "c250_3");
    assert!(c250_4(), "c250_4");
    assert!(c251_0(), "c251_0");
    assert!(c251_1(), "c251_1");
    assert!(c251_2(), "c251_2");
    assert!(c251_3(), "c251_3");
    assert!(c251_4(), "c251_4");
    assert!(c252_0(), "c252_0");
    assert!(c252_1(), "c252_1");
    assert!(c252_2(), "c252_2");
    assert!(c252_3(), "c252_3");
    assert!(c252_4(), "c252_4");
    assert!(c253_0(), "c253_0");
    assert!(c253_1(), "c253_1");
    assert!(c253_2(), "c253_2");
    assert!(c253_3(), "c253_3");
    assert!(c253_4(), "c253_4");
    assert!(c254_0(), "c254_0");
    assert!(c254_1(), "c254_1");
    assert!(c254_2(), "c254_2");
    assert!(c254_3(), "c254_3");
    assert!(c254_4(), "c254_4");
    assert!(c255_0(), "c255_0");
    assert!(c255_1(), "c255_1");
    assert!(c255_2(), "c255_2");
    assert!(c255_3(), "c255_3");
    assert!(c255_4(), "c255_4");
    assert!(c256_0(), "c256_0");
    assert!(c256_1(), "c256_1");
    assert!(c256_2(), "c256_2");
    assert!(c256_3(), "c256_3");
    assert!(c256_4(), "c256_4");
    assert!(c257_0(), "c257_0");
    assert!(c257_1(), "c257_1");
    assert!(c257_2(), "c257_2");
    assert!(c257_3(), "c257_3");
    assert!(c257_4(), "c257_4");
    assert!(c258_0(), "c258_0");
    assert!(c258_1(), "c258_1");
    assert!(c258_2(), "c258_2");
    assert!(c258_3(), "c258_3");
    assert!(c258_4(), "c258_4");
    assert!(c259_0(), "c259_0");
    assert!(c259_1(), "c259_1");
    assert!(c259_2(), "c259_2");
    assert!(c259_3(), "c259_3");
    assert!(c259_4(), "c259_4");
    assert!(c260_0(), "c260_0");
    assert!(c260_1(), "c260_1");
    assert!(c260_2(), "c260_2");
    assert!(c260_3(), "c260_3");
    assert!(c260_4(), "c260_4");
    assert!(c261_0(), "c261_0");
    assert!(c261_1(), "c261_1");
    assert!(c261_2(), "c261_2");
    assert!(c261_3(), "c261_3");
    assert!(c261_4(), "c261_4");
    assert!(c262_0(), "c262_0");
    assert!(c262_1(), "c262_1");
    assert!(c262_2(), "c262_2");
    assert!(c262_3(), "c262_3");
    assert!(c262_4(), "c262_4");
    assert!(c263_0(), "c263_0");
    assert!(c263_1(), "c263_1");
    assert!(c263_2(), "c263_2");
    assert!(c263_3(), "c263_3");
    assert!(c263_4(), "c263_4");
    assert!(c264_0(), "c264_0");
    assert!(c264_1(), "c264_1");
    assert!(c264_2(), "c264_2");
    assert!(c264_3(), "c264_3");
    assert!(c264_4(), "c264_4");
    assert!(c265_0(), "c265_0");
    assert!(c265_1(), "c265_1");
    assert!(c265_2(), "c265_2");
    assert!(c265_3(), "c265_3");
    assert!(c265_4(), "c265_4");
    assert!(c266_0(), "c266_0");
    assert!(c266_1(), "c266_1");
    assert!(c266_2(), "c266_2");
    assert!(c266_3(), "c266_3");
    assert!(c266_4(), "c266_4");
    assert!(c267_0(), "c267_0");
    assert!(c267_1(), "c267_1");
    assert!(c267_2(), "c267_2");
    assert!(c267_3(), "c267_3");
    assert!(c267_4(), "c267_4");
    assert!(c268_0(), "c268_0");
    assert!(c268_1(), "c268_1");
    assert!(c268_2(), "c268_2");
    assert!(c268_3(), "c268_3");
    assert!(c268_4(), "c268_4");
    assert!(c269_0(), "c269_0");
    assert!(c269_1(), "c269_1");
    assert!(c269_2(), "c269_2");
    assert!(c269_3(), "c269_3");
    assert!(c269_4(), "c269_4");
    assert!(c270_0(), "c270_0");
    assert!(c270_1(), "c270_1");
    assert!(c270_2(), "c270_2");
    assert!(c270_3(), "c270_3");
    assert!(c270_4(), "c270_4");
    assert!(c271_0(), "c271_0");
    assert!(c271_1(), "c271_1");
    assert!(c271_2(), "c271_2");
    assert!(c271_3(), "c271_3");
    assert!(c271_4(), "c271_4");
    assert!(c272_0(), "c272_0");
    assert!(c272_1(), "c272_1");
    assert!(c272_2(), "c272_2");
    assert!(c272_3(), "c272_3");
    assert!(c272_4(), "c272_4");
    assert!(c273_0(), "c273_0");
    assert!(c273_1(), "c273_1");
    assert!(c273_2(), "c273_2");
    assert!(c273_3(), "c273_3");
    assert!(c273_4(), "c273_4");
    assert!(c274_0(), "c274_0");
    assert!(c274_1(), "c274_1");
    assert!(c274_2(), "c274_2");
    assert!(c274_3(), "c274_3");
    assert!(c274_4(), "c274_4");
    assert!(c275_0(), "c275_0");
    assert!(c275_1(), "c275_1");
    assert!(c275_2(), "c275_2");
    assert!(c275_3(), "c275_3");
    assert!(c275_4(), "c275_4");
    assert!(c276_0(), "c276_0");
    assert!(c276_1(), "c276_1");
    assert!(c276_2(), "c276_2");
    assert!(c276_3(), "c276_3");
    assert!(c276_4(), "c276_4");
    assert!(c277_0(), "c277_0");
    assert!(c277_1(), "c277_1");
    assert!(c277_2(), "c277_2");
    assert!(c277_3(), "c277_3");
    assert!(c277_4(), "c277_4");
    assert!(c278_0(), "c278_0");
    assert!(c278_1(), "c278_1");
    assert!(c278_2(), "c278_2");
    assert!(c278_3(), "c278_3");
    assert!(c278_4(), "c278_4");
    assert!(c279_0(), "c279_0");
    assert!(c279_1(), "c279_1");
    assert!(c279_2(), "c279_2");
    assert!(c279_3(), "c279_3");
    assert!(c279_4(), "c279_4");
    assert!(c280_0(), "c280_0");
    assert!(c280_1(), "c280_1");
    assert!(c280_2(), "c280_2");
    assert!(c280_3(), "c280_3");
    assert!(c280_4(), "c280_4");
    assert!(c281_0(), "c281_0");
    assert!(c281_1(), "c281_1");
    assert!(c281_2(), "c281_2");
    assert!(c281_3(), "c281_3");
    assert!(c281_4(), "c281_4");
    assert!(c282_0(), "c282_0");
    assert!(c282_1(), "c282_1");
    assert!(c282_2(), "c282_2");
    assert!(c282_3(), "c282_3");
    assert!(c282_4(), "c282_4");
    assert!(c283_0(), "c283_0");
    assert!(c283_1(), "c283_1");
    assert!(c283_2(), "c283_2");
    assert!(c283_3(), "c283_3");
    assert!(c283_4(), "c283_4");
    assert!(c284_0(), "c284_0");
    assert!(c284_1(), "c284_1");
    assert!(c284_2(), "c284_2");
    assert!(c284_3(), "c284_3");
    assert!(c284_4(), "c284_4");
    assert!(c285_0(), "c285_0");
    assert!(c285_1(), "c285_1");
    assert!(c285_2(), "c285_2");
    assert!(c285_3(), "c285_3");
    assert!(c285_4(), "c285_4");
    assert!(c286_0(), "c286_0");
    assert!(c286_1(), "c286_1");
    assert!(c286_2(), "c286_2");
    assert!(c286_3(), "c286_3");
    assert!(c286_4(), "c286_4");
    assert!(c287_0(), "c287_0");
    assert!(c287_1(), "c287_1");
    assert!(c287_2(), "c287_2");
    assert!(c287_3(), "c287_3");
    assert!(c287_4(), "c287_4");
    assert!(c288_0(), "c288_0");
    assert!(c288_1(), "c288_1");
    assert!(c288_2(), "c288_2");
    assert!(c288_3(), "c288_3");
    assert!(c288_4(), "c288_4");
    assert!(c289_0(), "c289_0");
    assert!(c289_1(), "c289_1");
    assert!(c289_2(), "c289_2");
    assert!(c289_3(), "c289_3");
    assert!(c289_4(), "c289_4");
    assert!(c290_0(), "c290_0");
    assert!(c290_1(), "c290_1");
    assert!(c290_2(), "c290_2");
    assert!(c290_3(), "c290_3");
    assert!(c290_4(), "c290_4");
    assert!(c291_0(), "c291_0");
    assert!(c291_1(), "c291_1");
    assert!(c291_2(), "c291_2");
    assert!(c291_3(), "c291_3");
    assert!(c291_4(), "c291_4");
    assert!(c292_0(), "c292_0");
    assert!(c292_1(), "c292_1");
    assert!(c292_2(), "c292_2");
    assert!(c292_3(), "c292_3");
    assert!(c292_4(), "c292_4");
    assert!(c292_5(), "c292_5");
    assert!(c292_6(), "c292_6");
    assert!(c292_7(), "c292_7");
    assert!(c292_8(), "c292_8");
    assert!(c292_9(), "c292_9");
    assert!(c292_10(), "c292_10");
    assert!(c292_11(), "c292_11");
    assert!(c292_12(), "c292_12");
    assert!(c292_13(), "c292_13");
    assert!(c292_14(), "c292_14");
    assert!(c292_15(), "c292_15");
    assert!(c292_16(), "c292_16");
    assert!(c292_17(), "c292_17");
    assert!(c292_18(), "c292_18");
    assert!(c292_19(), "c292_19");
    assert!(c292_20(), "c292_20");
    assert!(c292_21(), "c292_21");
    assert!(c292_22(), "c292_22");
    assert!(c292_23(), "c292_23");
    assert!(c292_24(), "c292_24");
    assert!(c293_0(), "c293_0");
    assert!(c293_1(), "c293_1");
    assert!(c293_2(), "c293_2");
    assert!(c293_3(), "c293_3");
    assert!(c293_4(), "c293_4");
    assert!(c293_5(), "c293_5");
    assert!(c293_6(), "c293_6");
    assert!(c293_7(), "c293_7");
    assert!(c293_8(), "c293_8");
    assert!(c293_9(), "c293_9");
    assert!(c293_10(), "c293_10");
    assert!(c293_11(), "c293_11");
    assert!(c293_12(), "c293_12");
    assert!(c293_13(), "c293_13");
    assert!(c293_14(), "c293_14");
    assert!(c293_15(), "c293_15");
    assert!(c293_16(), "c293_16");
    assert!(c293_17(), "c293_17");
    assert!(c293_18(), "c293_18");
    assert!(c293_19(), "c293_19");
    assert!(c293_20(), "c293_20");
    assert!(c293_21(), "c293_21");
    assert!(c293_22(), "c293_22");
    assert!(c293_23(), "c293_23");
    assert!(c293_24(), "c293_24");
    assert!(c294_0(), "c294_0");
    assert!(c294_1(), "c294_1");
    assert!(c294_2(), "c294_2");
    assert!(c294_3(), "c294_3");
    assert!(c294_4(), "c294_4");
    assert!(c294_5(), "c294_5");
    assert!(c294_6(), "c294_6");
    assert!(c294_7(), "c294_7");
    assert!(c294_8(), "c294_8");
    assert!(c294_9(), "c294_9");
    assert!(c294_10(), "c294_10");
    assert!(c294_11(), "c294_11");
    assert!(c294_12(), "c294_12");
    assert!(c294_13(), "c294_13");
    assert!(c294_14(), "c294_14");
    assert!(c294_15(), "c294_15");
    assert!(c294_16(), "c294_16");
    assert!(c294_17(), "c294_17");
    assert!(c294_18(), "c294_18");
    assert!(c294_19(), "c294_19");
    assert!(c294_20(), "c294_20");
    assert!(c294_21(), "c294_21");
    assert!(c294_22(), "c294_22");
    assert!(c294_23(), "c294_23");
    assert!(c294_24(), "c294_24");
    assert!(c295_0(), "c295_0");
    assert!(c295_1(), "c295_1");
    assert!(c295_2(), "c295_2");
    assert!(c295_3(), "c295_3");
    assert!(c295_4(), "c295_4");
    assert!(c295_5(), "c295_5");
    assert!(c295_6(), "c295_6");
    assert!(c295_7(), "c295_7");
    assert!(c295_8(), "c295_8");
    assert!(c295_9(), "c295_9");
    assert!(c295_10(), "c295_10");
    assert!(c295_11(), "c295_11");
    assert!(c295_12(), "c295_12");
    assert!(c295_13(), "c295_13");
    assert!(c295_14(), "c295_14");
    assert!(c295_15(), "c295_15");
    assert!(c295_16(), "c295_16");
    assert!(c295_17(), "c295_17");
    assert!(c295_18(), "c295_18");
    assert!(c295_19(), "c295_19");
    assert!(c295_20(), "c295_20");
    assert!(c295_21(), "c295_21");
    assert!(c295_22(), "c295_22");
    assert!(c295_23(), "c295_23");
    assert!(c295_24(), "c295_24");
    assert!(c296_0(), "c296_0");
    assert!(c296_1(), "c296_1");
    assert!(c296_2(), "c296_2");
    assert!(c296_3(), "c296_3");
    assert!(c296_4(), "c296_4");
    assert!(c296_5(), "c296_5");
    assert!(c296_6(), "c296_6");
    assert!(c296_7(), "c296_7");
    assert!(c296_8(), "c296_8");
    assert!(c296_9(), "c296_9");
    assert!(c296_10(), "c296_10");
    assert!(c296_11(), "c296_11");
    assert!(c296_12(), "c296_12");
    assert!(c296_13(), "c296_13");
    assert!(c296_14(), "c296_14");
    assert!(c296_15(), "c296_15");
    assert!(c296_16(), "c296_16");
    assert!(c296_17(), "c296_17");
    assert!(c296_18(), "c296_18");
    assert!(c296_19(), "c296_19");
    assert!(c296_20(), "c296_20");
    assert!(c296_21(), "c296_21");
    assert!(c296_22(), "c296_22");
    assert!(c296_23(), "c296_23");
    assert!(c296_24(), "c296_24");
    assert!(c297_0(), "c297_0");
    assert!(c297_1(), "c297_1");
    assert!(c297_2(), "c297_2");
    assert!(c297_3(), "c297_3");
    assert!(c297_4(), "c297_4");
    assert!(c297_5(), "c297_5");
    assert!(c297_6(), "c297_6");
    assert!(c297_7(), "c297_7");
    assert!(c297_8(), "c297_8");
    assert!(c297_9(), "c297_9");
    assert!(c297_10(), "c297_10");
    assert!(c297_11(), "c297_11");
    assert!(c297_12(), "c297_12");
    assert!(c297_13(), "c297_13");
    assert!(c297_14(), "c297_14");
    assert!(c297_15(), "c297_15");
    assert!(c297_16(), "c297_16");
    assert!(c297_17(), "c297_17");
    assert!(c297_18(), "c297_18");
    assert!(c297_19(), "c297_19");
    assert!(c297_20(), "c297_20");
    assert!(c297_21(), "c297_21");
    assert!(c297_22(), "c297_22");
    assert!(c297_23(), "c297_23");
    assert!(c297_24(), "c297_24");
    assert!(c298_0(), "c298_0");
    assert!(c298_1(), "c298_1");
    assert!(c298_2(), "c298_2");
    assert!(c298_3(), "c298_3");
    assert!(c298_4(), "c298_4");
    assert!(c298_5(), "c298_5");
    assert!(c298_6(), "c298_6");
    assert!(c298_7(), "c298_7");
    assert!(c298_8(), "c298_8");
    assert!(c298_9(), "c298_9");
    assert!(c298_10(), "c298_10");
    assert!(c298_11(), "c298_11");
    assert!(c298_12(), "c298_12");
    assert!(c298_13(), "c298_13");
    assert!(c298_14(), "c298_14");
    assert!(c298_15(), "c298_15");
    assert!(c298_16(), "c298_16");
    assert!(c298_17(), "c298_17");
    assert!(c298_18(), "c298_18");
    assert!(c298_19(), "c298_19");
    assert!(c298_20(), "c298_20");
    assert!(c298_21(), "c298_21");
    assert!(c298_22(), "c298_22");
    assert!(c298_23(), "c298_23");
    assert!(c298_24(), "c298_24");
    assert!(c299_0(), "c299_0");
    assert!(c299_1(), "c299_1");
    assert!(c299_2(), "c299_2");
    assert!(c299_3(), "c299_3");
    assert!(c299_4(), "c299_4");
    assert!(c299_5(), "c299_5");
    assert!(c299_6(), "c299_6");
    assert!(c299_7(), "c299_7");
    assert!(c299_8(), "c299_8");
    assert!(c299_9(), "c299_9");
    assert!(c299_10(), "c299_10");
    assert!(c299_11(), "c299_11");
    assert!(c299_12(), "c299_12");
    assert!(c299_13(), "c299_13");
    assert!(c299_14(), "c299_14");
    assert!(c299_15(), "c299_15");
    assert!(c299_16(), "c299_16");
    assert!(c299_17(), "c299_17");
    assert!(c299_18(), "c299_18");
    assert!(c299_19(), "c299_19");
    assert!(c299_20(), "c299_20");
    assert!(c299_21(), "c299_21");
    assert!(c299_22(), "c299_22");
    assert!(c299_23(), "c299_23");
    assert!(c299_24(), "c299_24");
    assert!(c300_0(), "c300_0");
    assert!(c300_1(), "c300_1");
    assert!(c300_2(), "c300_2");
    assert!(c300_3(), "c300_3");
    assert!(c300_4(), "c300_4");
    assert!(c300_5(), "c300_5");
    assert!(c300_6(), "c300_6");
    assert!(c300_7(), "c300_7");
    assert!(c300_8(), "c300_8");
    assert!(c300_9(), "c300_9");
    assert!(c300_10(), "c300_10");
    assert!(c300_11(), "c300_11");
    assert!(c300_12(), "c300_12");
    assert!(c300_13(), "c300_13");
    assert!(c300_14(), "c300_14");
    assert!(c300_15(), "c300_15");
    assert!(c300_16(), "c300_16");
    assert!(c300_17(), "c300_17");
    assert!(c300_18(), "c300_18");
    assert!(c300_19(), "c300_19");
    assert!(c300_20(), "c300_20");
    assert!(c300_21(), "c300_21");
    assert!(c300_22(), "c300_22");
    assert!(c300_23(), "c300_23");
    assert!(c300_24(), "c300_24");
    assert!(c301_0(), "c301_0");
    assert!(c301_1(), "c301_1");
    assert!(c301_2(), "c301_2");
    assert!(c301_3(), "c301_3");
    assert!(c301_4(), "c301_4");
    assert!(c301_5(), "c301_5");
    assert!(c301_6(), "c301_6");
    assert!(c301_7(), "c301_7");
    assert!(c301_8(), "c301_8");
    assert!(c301_9(), "c301_9");
    assert!(c301_10(), "c301_10");
    assert!(c301_11(), "c301_11");
    assert!(c301_12(), "c301_12");
    assert!(c301_13(), "c301_13");
    assert!(c301_14(), "c301_14");
    assert!(c301_15(), "c301_15");
    assert!(c301_16(), "c301_16");
    assert!(c301_17(), "c301_17");
    assert!(c301_18(), "c301_18");
    assert!(c301_19(), "c301_19");
    assert!(c301_20(), "c301_20");
    assert!(c301_21(), "c301_21");
    assert!(c301_22(), "c301_22");
    assert!(c301_23(), "c301_23");
    assert!(c301_24(), "c301_24");
    assert!(c302_0(), "c302_0");
    assert!(c302_1(), "c302_1");
    assert!(c302_2(), "c302_2");
    assert!(c302_3(), "c302_3");
    assert!(c302_4(), "c302_4");
    assert!(c302_5(), "c302_5");
    assert!(c302_6(), "c302_6");
    assert!(c302_7(), "c302_7");
    assert!(c302_8(), "c302_8");
    assert!(c302_9(), "c302_9");
    assert!(c302_10(), "c302_10");
    assert!(c302_11(), "c302_11");
    assert!(c302_12(), "c302_12");
    assert!(c302_13(), "c302_13");
    assert!(c302_14(), "c302_14");
    assert!(c302_15(), "c302_15");
    assert!(c302_16(), "c302_16");
    assert!(c302_17(), "c302_17");
    assert!(c302_18(), "c302_18");
    assert!(c302_19(), "c302_19");
    assert!(c302_20(), "c302_20");
    assert!(c302_21(), "c302_21");
    assert!(c302_22(), "c302_22");
    assert!(c302_23(), "c302_23");
    assert!(c302_24(), "c302_24");
    assert!(c303_0(), "c303_0");
    assert!(c303_1(), "c303_1");
    assert!(c303_2(), "c303_2");
    assert!(c303_3(), "c303_3");
    assert!(c303_4(), "c303_4");
    assert!(c303_5(), "c303_5");
    assert!(c303_6(), "c303_6");
    assert!(c303_7(), "c303_7");
    assert!(c303_8(), "c303_8");
    assert!(c303_9(), "c303_9");
    assert!(c303_10(), "c303_10");
    assert!(c303_11(), "c303_11");
    assert!(c303_12(), "c303_12");
    assert!(c303_13(), "c303_13");
    assert!(c303_14(), "c303_14");
    assert!(c303_15(), "c303_15");
    assert!(c303_16(), "c303_16");
    assert!(c303_17(), "c303_17");
    assert!(c303_18(), "c303_18");
    assert!(c303_19(), "c303_19");
    assert!(c303_20(), "c303_20");
    assert!(c303_21(), "c303_21");
    assert!(c303_22(), "c303_22");
    assert!(c303_23(), "c303_23");
    assert!(c303_24(), "c303_24");
    assert!(c304_0(), "c304_0");
    assert!(c304_1(), "c304_1");
    assert!(c304_2(), "c304_2");
    assert!(c304_3(), "c304_3");
    assert!(c304_4(), "c304_4");
    assert!(c304_5(), "c304_5");
    assert!(c304_6(), "c304_6");
    assert!(c304_7(), "c304_7");
    assert!(c304_8(), "c304_8");
    assert!(c304_9(), "c304_9");
    assert!(c304_10(), "c304_10");
    assert!(c304_11(), "c304_11");
    assert!(c304_12(), "c304_12");
    assert!(c304_13(), "c304_13");
    assert!(c304_14(), "c304_14");
    assert!(c304_15(), "c304_15");
    assert!(c304_16(), "c304_16");
    assert!(c304_17(), "c304_17");
    assert!(c304_18(), "c304_18");
    assert!(c304_19(), "c304_19");
    assert!(c304_20(), "c304_20");
    assert!(c304_21(), "c304_21");
    assert!(c304_22(), "c304_22");
    assert!(c304_23(), "c304_23");
    assert!(c304_24(), "c304_24");
    assert!(c305_0(), "c305_0");
    assert!(c305_1(), "c305_1");
    assert!(c305_2(), "c305_2");
    assert!(c305_3(), "c305_3");
    assert!(c305_4(), "c305_4");
    assert!(c305_5(), "c305_5");
    assert!(c305_6(), "c305_6");
    assert!(c305_7(), "c305_7");
    assert!(c305_8(), "c305_8");
    assert!(c305_9(), "c305_9");
    assert!(c305_10(), "c305_10");
    assert!(c305_11(), "c305_11");
    assert!(c305_12(), "c305_12");
    assert!(c305_13(), "c305_13");
    assert!(c305_14(), "c305_14");
    assert!(c305_15(), "c305_15");
    assert!(c305_16(), "c305_16");
    assert!(c305_17(), "c305_17");
    assert!(c305_18(), "c305_18");
    assert!(c305_19(), "c305_19");
    assert!(c305_20(), "c305_20");
    assert!(c305_21(), "c305_21");
    assert!(c305_22(), "c305_22");
    assert!(c305_23(), "c305_23");
    assert!(c305_24(), "c305_24");
    assert!(c306_0(), "c306_0");
    assert!(c306_1(), "c306_1");
    assert!(c306_2(), "c306_2");
    assert!(c306_3(), "c306_3");
    assert!(c306_4(), "c306_4");
    assert!(c306_5(), "c306_5");
    assert!(c306_6(), "c306_6");
    assert!(c306_7(), "c306_7");
    assert!(c306_8(), "c306_8");
    assert!(c306_9(), "c306_9");
    assert!(c306_10(), "c306_10");
    assert!(c306_11(), "c306_11");
    assert!(c306_12(), "c306_12");
    assert!(c306_13(), "c306_13");
    assert!(c306_14(), "c306_14");
    assert!(c306_15(), "c306_15");
    assert!(c306_16(), "c306_16");
    assert!(c306_17(), "c306_17");
    assert!(c306_18(), "c306_18");
    assert!(c306_19(), "c306_19");
    assert!(c306_20(), "c306_20");
    assert!(c306_21(), "c306_21");
    assert!(c306_22(), "c306_22");
    assert!(c306_23(), "c306_23");
    assert!(c306_24(), "c306_24");
    assert!(c307_0(), "c307_0");
    assert!(c307_1(), "c307_1");
    assert!(c307_2(), "c307_2");
    assert!(c308_0(), "c308_0");
    assert!(c308_1(), "c308_1");
    assert!(c308_2(), "c308_2");
    assert!(c309_0(), "c309_0");
    assert!(c309_1(), "c309_1");
    assert!(c309_2(), "c309_2");
    assert!(c310_0(), "c310_0");
    assert!(c310_1(), "c310_1");
    assert!(c310_2(), "c310_2");
    assert!(c311_0(), "c311_0");
    assert!(c311_1(), "c311_1");
    assert!(c311_2(), "c311_2");
    assert!(c312_0(), "c312_0");
    assert!(c312_1(), "c312_1");
    assert!(c312_2(), "c312_2");
    assert!(c313_0(), "c313_0");
    assert!(c313_1(), "c313_1");
    assert!(c313_2(), "c313_2");
    assert!(c314_0(), "c314_0");
    assert!(c314_1(), "c314_1");
    assert!(c314_2(), "c314_2");
    assert!(c315_0(), "c315_0");
    assert!(c315_1(), "c315_1");
    assert!(c315_2(), "c315_2");
    assert!(c316_0(), "c316_0");
    assert!(c316_1(), "c316_1");
    assert!(c316_2(), "c316_2");
    assert!(c317_0(), "c317_0");
    assert!(c317_1(), "c317_1");
    assert!(c317_2(), "c317_2");
    assert!(c318_0(), "c318_0");
    assert!(c318_1(), "c318_1");
    assert!(c318_2(), "c318_2");
    assert!(c319_0(), "c319_0");
    assert!(c319_1(), "c319_1");
    assert!(c319_2(), "c319_2");
    assert!(c320_0(), "c320_0");
    assert!(c320_1(), "c320_1");
    assert!(c320_2(), "c320_2");
    assert!(c321_0(), "c321_0");
    assert!(c321_1(), "c321_1");
    assert!(c321_2(), "c321_2");
    assert!(c322_0(), "c322_0");
    assert!(c322_1(), "c322_1");
    assert!(c322_2(), "c322_2");
    assert!(c323_0(), "c323_0");
    assert!(c323_1(), "c323_1");
    assert!(c323_2(), "c323_2");
    assert!(c324_0(), "c324_0");
    assert!(c324_1(), "c324_1");
    assert!(c324_2(), "c324_2");
    assert!(c325_0(), "c325_0");
    assert!(c325_1(), "c325_1");
    assert!(c325_2(), "c325_2");
    assert!(c326_0(), "c326_0");
    assert!(c326_1(), "c326_1");
    assert!(c326_2(), "c326_2");
    assert!(c327_0(), "c327_0");
    assert!(c327_1(), "c327_1");
    assert!(c327_2(), "c327_2");
    assert!(c328_0(), "c328_0");
    assert!(c328_1(), "c328_1");
    assert!(c328_2(), "c328_2");
    assert!(c329_0(), "c329_0");
    assert!(c329_1(), "c329_1");
    assert!(c329_2(), "c329_2");
    assert!(c330_0(), "c330_0");
    assert!(c330_1(), "c330_1");
    assert!(c330_2(), "c330_2");
    assert!(c331_0(), "c331_0");
    assert!(c331_1(), "c331_1");
    assert!(c331_2(), "c331_2");
    assert!(c332_0(), "c332_0");
    assert!(s332_0(""), "s332_0");
    assert!(c332_1(), "c332_1");
    assert!(s332_1("a"), "s332_1");
    assert!(c332_2(), "c332_2");
    assert!(s332_2("abc"), "s332_2");
    assert!(c332_3(), "c332_3");
    assert!(s332_3("%a1"), "s332_3");
    assert!(c332_4(), "c332_4");
    assert!(s332_4("\u{e9}%x"), "s332_4");
    assert!(c332_5(), "c332_5");
    assert!(s332_5("a:b:c"), "s332_5");
    assert!(c332_6(), "c332_6");
    assert!(s332_6("::"), "s332_6");
    assert!(c332_7(), "c332_7");
    assert!(s332_7("  x "), "s332_7");
    assert!(c332_8(), "c332_8");
    assert!(s332_8("12"), "s332_8");
    assert!(c332_9(), "c332_9");
    assert!(s332_9("-5"), "s332_9");
    assert!(c332_10(), "c332_10");
    assert!(s332_10("+7"), "s332_10");
    assert!(c332_11(), "c332_11");
    assert!(s332_11("99999999999999999999"), "s332_11");
    assert!(c332_12(), "c332_12");
    assert!(s332_12("a\u{a}b\u{d}\u{a}c"), "s332_12");
    assert!(c332_13(), "c332_13");
    assert!(s332_13("\u{65e5}\u{672c}"), "s332_13");
    assert!(c332_14(), "c332_14");
    assert!(s332_14("\u{1f600}z"), "s332_14");
    assert!(c332_15(), "c332_15");
    assert!(s332_15("xx"), "s332_15");
    assert!(c333_0(), "c333_0");
    assert!(s333_0(""), "s333_0");
    assert!(c333_1(), "c333_1");
    assert!(s333_1("a"), "s333_1");
    assert!(c333_2(), "c333_2");
    assert!(s333_2("abc"), "s333_2");
    assert!(c333_3(), "c333_3");
    assert!(s333_3("%a1"), "s333_3");
    assert!(c333_4(), "c333_4");
    assert!(s333_4("\u{e9}%x"), "s333_4");
    assert!(c333_5(), "c333_5");
    assert!(s333_5("a:b:c"), "s333_5");
    assert!(c333_6(), "c333_6");
    assert!(s333_6("::"), "s333_6");
    assert!(c333_7(), "c333_7");
    assert!(s333_7("  x "), "s333_7");
    assert!(c333_8(), "c333_8");
    assert!(s333_8("12"), "s333_8");
    assert!(c333_9(), "c333_9");
    assert!(s333_9("-5"), "s333_9");
    assert!(c333_10(), "c333_10");
    assert!(s333_10("+7"), "s333_10");
    assert!(c333_11(), "c333_11");
    assert!(s333_11("99999999999999999999"), "s333_11");
    assert!(c333_12(), "c333_12");
    assert!(s333_12("a\u{a}b\u{d}\u{a}c"), "s333_12");
    assert!(c333_13(), "c333_13");
    assert!(s333_13("\u{65e5}\u{672c}"), "s333_13");
    assert!(c333_14(), "c333_14");
    assert!(s333_14("\u{1f600}z"), "s333_14");
    assert!(c333_15(), "c333_15");
    assert!(s333_15("xx"), "s333_15");
    assert!(c334_0(), "c334_0");
    assert!(s334_0(""), "s334_0");
    assert!(c334_1(), "c334_1");
    assert!(s334_1("a"), "s334_1");
    assert!(c334_2(), "c334_2");
    assert!(s334_2("abc"), "s334_2");
    assert!(c334_3(), "c334_3");
    assert!(s334_3("%a1"), "s334_3");
    assert!(c334_4(), "c334_4");
    assert!(s334_4("\u{e9}%x"), "s334_4");
    assert!(c334_5(), "c334_5");
    assert!(s334_5("a:b:c"), "s334_5");
    assert!(c334_6(), "c334_6");
    assert!(s334_6("::"), "s334_6");
    assert!(c334_7(), "c334_7");
    assert!(s334_7("  x "), "s334_7");
    assert!(c334_8(), "c334_8");
    assert!(s334_8("12"), "s334_8");
    assert!(c334_9(), "c334_9");
    assert!(s334_9("-5"), "s334_9");
    assert!(c334_10(), "c334_10");
    assert!(s334_10("+7"), "s334_10");
    assert!(c334_11(), "c334_11");
    assert!(s334_11("99999999999999999999"), "s334_11");
    assert!(c334_12(), "c334_12");
    assert!(s334_12("a\u{a}b\u{d}\u{a}c"), "s334_12");
    assert!(c334_13(), "c334_13");
    assert!(s334_13("\u{65e5}\u{672c}"), "s334_13");
    assert!(c334_14(), "c334_14");
    assert!(s334_14("\u{1f600}z"), "s334_14");
    assert!(c334_15(), "c334_15");
    assert!(s334_15("xx"), "s334_15");
    assert!(c335_0(), "c335_0");
    assert!(s335_0(""), "s335_0");
    assert!(c335_1(), "c335_1");
    assert!(s335_1("a"), "s335_1");
    assert!(c335_2(), "c335_2");
    assert!(s335_2("abc"), "s335_2");
    assert!(c335_3(), "c335_3");
    assert!(s335_3("%a1"), "s335_3");
    assert!(c335_4(), "c335_4");
    assert!(s335_4("\u{e9}%x"), "s335_4");
    assert!(c335_5(), "c335_5");
    assert!(s335_5("a:b:c"), "s335_5");
    assert!(c335_6(), "c335_6");
    assert!(s335_6("::"), "s335_6");
    assert!(c335_7(), "c335_7");
    assert!(s335_7("  x "), "s335_7");
    assert!(c335_8(), "c335_8");
    assert!(s335_8("12"), "s335_8");
    assert!(c335_9(), "c335_9");
    assert!(s335_9("-5"), "s335_9");
    assert!(c335_10(), "c335_10");
    assert!(s335_10("+7"), "s335_10");
    assert!(c335_11(), "c335_11");
    assert!(s335_11("99999999999999999999"), "s335_11");
    assert!(c335_12(), "c335_12");
    assert!(s335_12("a\u{a}b\u{d}\u{a}c"), "s335_12");
    assert!(c335_13(), "c335_13");
    assert!(s335_13("\u{65e5}\u{672c}"), "s335_13");
    assert!(c335_14(), "c335_14");
    assert!(s335_14("\u{1f600}z"), "s335_14");
    assert!(c335_15(), "c335_15");
    assert!(s335_15("xx"), "s335_15");
    assert!(c336_0(), "c336_0");
    assert!(s336_0(""), "s336_0");
    assert!(c336_1(), "c336_1");
    assert!(s336_1("a"), "s336_1");
    assert!(c336_2(), "c336_2");
    assert!(s336_2("abc"), "s336_2");
    assert!(c336_3(), "c336_3");
    assert!(s336_3("%a1"), "s336_3");
    assert!(c336_4(), "c336_4");
    assert!(s336_4("\u{e9}%x"), "s336_4");
    assert!(c336_5(), "c336_5");
    assert!(s336_5("a:b:c"), "s336_5");
    assert!(c336_6(), "c336_6");
    assert!(s336_6("::"), "s336_6");
    assert!(c336_7(), "c336_7");
    assert!(s336_7("  x "), "s336_7");
    assert!(c336_8(), "c336_8");
    assert!(s336_8("12"), "s336_8");
    assert!(c336_9(), "c336_9");
    assert!(s336_9("-5"), "s336_9");
    assert!(c336_10(), "c336_10");
    assert!(s336_10("+7"), "s336_10");
    assert!(c336_11(), "c336_11");
    assert!(s336_11("99999999999999999999"), "s336_11");
    assert!(c336_12(), "c336_12");
    assert!(s336_12("a\u{a}b\u{d}\u{a}c"), "s336_12");
    assert!(c336_13(), "c336_13");
    assert!(s336_13("\u{65e5}\u{672c}"), "s336_13");
    assert!(c336_14(), "c336_14");
    assert!(s336_14("\u{1f600}z"), "s336_14");
    assert!(c336_15(), "c336_15");
    assert!(s336_15("xx"), "s336_15");
    assert!(c337_0(), "c337_0");
    assert!(s337_0(""), "s337_0");
    assert!(c337_1(), "c337_1");
    assert!(s337_1("a"), "s337_1");
    assert!(c337_2(), "c337_2");
    assert!(s337_2("abc"), "s337_2");
    assert!(c337_3(), "c337_3");
    assert!(s337_3("%a1"), "s337_3");
    assert!(c337_4(), "c337_4");
    assert!(s337_4("\u{e9}%x"), "s337_4");
    assert!(c337_5(), "c337_5");
    assert!(s337_5("a:b:c"), "s337_5");
    assert!(c337_6(), "c337_6");
    assert!(s337_6("::"), "s337_6");
    assert!(c337_7(), "c337_7");
    assert!(s337_7("  x "), "s337_7");
    assert!(c337_8(), "c337_8");
    assert!(s337_8("12"), "s337_8");
    assert!(c337_9(), "c337_9");
    assert!(s337_9("-5"), "s337_9");
    assert!(c337_10(), "c337_10");
    assert!(s337_10("+7"), "s337_10");
    assert!(c337_11(), "c337_11");
    assert!(s337_11("99999999999999999999"), "s337_11");
    assert!(c337_12(), "c337_12");
    assert!(s337_12("a\u{a}b\u{d}\u{a}c"), "s337_12");
    assert!(c337_13(), "c337_13");
    assert!(s337_13("\u{65e5}\u{672c}"), "s337_13");
    assert!(c337_14(), "c337_14");
    assert!(s337_14("\u{1f600}z"), "s337_14");
    assert!(c337_15(), "c337_15");
    assert!(s337_15("xx"), "s337_15");
    assert!(c338_0(), "c338_0");
    assert!(s338_0(""), "s338_0");
    assert!(c338_1(), "c338_1");
    assert!(s338_1("a"), "s338_1");
    assert!(c338_2(), "c338_2");
    assert!(s338_2("abc"), "s338_2");
    assert!(c338_3(), "c338_3");
    assert!(s338_3("%a1"), "s338_3");
    assert!(c338_4(), "c338_4");
    assert!(s338_4("\u{e9}%x"), "s338_4");
    assert!(c338_5(), "c338_5");
    assert!(s338_5("a:b:c"), "s338_5");
    assert!(c338_6(), "c338_6");
    assert!(s338_6("::"), "s338_6");
    assert!(c338_7(), "c338_7");
    assert!(s338_7("  x "), "s338_7");
    assert!(c338_8(), "c338_8");
    assert!(s338_8("12"), "s338_8");
    assert!(c338_9(), "c338_9");
    assert!(s338_9("-5"), "s338_9");
    assert!(c338_10(), "c338_10");
    assert!(s338_10("+7"), "s338_10");
    assert!(c338_11(), "c338_11");
    assert!(s338_11("99999999999999999999"), "s338_11");
    assert!(c338_12(), "c338_12");
    assert!(s338_12("a\u{a}b\u{d}\u{a}c"), "s338_12");
    assert!(c338_13(), "c338_13");
    assert!(s338_13("\u{65e5}\u{672c}"), "s338_13");
    assert!(c338_14(), "c338_14");
    assert!(s338_14("\u{1f600}z"), "s338_14");
    assert!(c338_15(), "c338_15");
    assert!(s338_15("xx"), "s338_15");
    assert!(c339_0(), "c339_0");
    assert!(s339_0(""), "s339_0");
    assert!(c339_1(), "c339_1");
    assert!(s339_1("a"), "s339_1");
    assert!(c339_2(), "c339_2");
    assert!(s339_2("abc"), "s339_2");
    assert!(c339_3(), "c339_3");
    assert!(s339_3("%a1"), "s339_3");
    assert!(c339_4(), "c339_4");
    assert!(s339_4("\u{e9}%x"), "s339_4");
    assert!(c339_5(), "c339_5");
    assert!(s339_5("a:b:c"), "s339_5");
    assert!(c339_6(), "c339_6");
    assert!(s339_6("::"), "s339_6");
    assert!(c339_7(), "c339_7");
    assert!(s339_7("  x "), "s339_7");
    assert!(c339_8(), "c339_8");
    assert!(s339_8("12"), "s339_8");
    assert!(c339_9(), "c339_9");
    assert!(s339_9("-5"), "s339_9");
    assert!(c339_10(), "c339_10");
    assert!(s339_10("+7"), "s339_10");
    assert!(c339_11(), "c339_11");
    assert!(s339_11("99999999999999999999"), "s339_11");
    assert!(c339_12(), "c339_12");
    assert!(s339_12("a\u{a}b\u{d}\u{a}c"), "s339_12");
    assert!(c339_13(), "c339_13");
    assert!(s339_13("\u{65e5}\u{672c}"), "s339_13");
    assert!(c339_14(), "c339_14");
    assert!(s339_14("\u{1f600}z"), "s339_14");
    assert!(c339_15(), "c339_15");
    assert!(s339_15("xx"), "s339_15");
    assert!(c340_0(), "c340_0");
    assert!(s340_0(""), "s340_0");
    assert!(c340_1(), "c340_1");
    assert!(s340_1("a"), "s340_1");
    assert!(c340_2(), "c340_2");
    assert!(s340_2("abc"), "s340_2");
    assert!(c340_3(), "c340_3");
    assert!(s340_3("%a1"), "s340_3");
    assert!(c340_4(), "c340_4");
    assert!(s340_4("\u{e9}%x"), "s340_4");
    assert!(c340_5(), "c340_5");
    assert!(s340_5("a:b:c"), "s340_5");
    assert!(c340_6(), "c340_6");
    assert!(s340_6("::"), "s340_6");
    assert!(c340_7(), "c340_7");
    assert!(s340_7("  x "), "s340_7");
    assert!(c340_8(), "c340_8");
    assert!(s340_8("12"), "s340_8");
    assert!(c340_9(), "c340_9");
    assert!(s340_9("-5"), "s340_9");
    assert!(c340_10(), "c340_10");
    assert!(s340_10("+7"), "s340_10");
    assert!(c340_11(), "c340_11");
    assert!(s340_11("99999999999999999999"), "s340_11");
    assert!(c340_12(), "c340_12");
    assert!(s340_12("a\u{a}b\u{d}\u{a}c"), "s340_12");
    assert!(c340_13(), "c340_13");
    assert!(s340_13("\u{65e5}\u{672c}"), "s340_13");
    assert!(c340_14(), "c340_14");
    assert!(s340_14("\u{1f600}z"), "s340_14");
    assert!(c340_15(), "c340_15");
    assert!(s340_15("xx"), "s340_15");
    assert!(c341_0(), "c341_0");
    assert!(s341_0(""), "s341_0");
    assert!(c341_1(), "c341_1");
    assert!(s341_1("a"), "s341_1");
    assert!(c341_2(), "c341_2");
    assert!(s341_2("abc"), "s341_2");
    assert!(c341_3(), "c341_3");
    assert!(s341_3("%a1"), "s341_3");
    assert!(c341_4(), "c341_4");
    assert!(s341_4("\u{e9}%x"), "s341_4");
    assert!(c341_5(), "c341_5");
    assert!(s341_5("a:b:c"), "s341_5");
    assert!(c341_6(), "c341_6");
    assert!(s341_6("::"), "s341_6");
    assert!(c341_7(), "c341_7");
    assert!(s341_7("  x "), "s341_7");
    assert!(c341_8(), "c341_8");
    assert!(s341_8("12"), "s341_8");
    assert!(c341_9(), "c341_9");
    assert!(s341_9("-5"), "s341_9");
    assert!(c341_10(), "c341_10");
    assert!(s341_10("+7"), "s341_10");
    assert!(c341_11(), "c341_11");
    assert!(s341_11("99999999999999999999"), "s341_11");
    assert!(c341_12(), "c341_12");
    assert!(s341_12("a\u{a}b\u{d}\u{a}c"), "s341_12");
    assert!(c341_13(), "c341_13");
    assert!(s341_13("\u{65e5}\u{672c}"), "s341_13");
    assert!(c341_14(), "c341_14");
    assert!(s341_14("\u{1f600}z"), "s341_14");
    assert!(c341_15(), "c341_15");
    assert!(s341_15("xx"), "s341_15");
    assert!(c342_0(), "c342_0");
    assert!(s342_0(""), "s342_0");
    assert!(c342_1(), "c342_1");
    assert!(s342_1("a"), "s342_1");
    assert!(c342_2(), "c342_2");
    assert!(s342_2("abc"), "s342_2");
    assert!(c342_3(), "c342_3");
    assert!(s342_3("%a1"), "s342_3");
    assert!(c342_4(), "c342_4");
    assert!(s342_4("\u{e9}%x"), "s342_4");
    assert!(c342_5(), "c342_5");
    assert!(s342_5("a:b:c"), "s342_5");
    assert!(c342_6(), "c342_6");
    assert!(s342_6("::"), "s342_6");
    assert!(c342_7(), "c342_7");
    assert!(s342_7("  x "), "s342_7");
    assert!(c342_8(), "c342_8");
    assert!(s342_8("12"), "s342_8");
    assert!(c342_9(), "c342_9");
    assert!(s342_9("-5"), "s342_9");
    assert!(c342_10(), "c342_10");
    assert!(s342_10("+7"), "s342_10");
    assert!(c342_11(), "c342_11");
    assert!(s342_11("99999999999999999999"), "s342_11");
    assert!(c342_12(), "c342_12");
    assert!(s342_12("a\u{a}b\u{d}\u{a}c"), "s342_12");
    assert!(c342_13(), "c342_13");
    assert!(s342_13("\u{65e5}\u{672c}"), "s342_13");
    assert!(c342_14(), "c342_14");
    assert!(s342_14("\u{1f600}z"), "s342_14");
    assert!(c342_15(), "c342_15");
    assert!(s342_15("xx"), "s342_15");
    assert!(c343_0(), "c343_0");
    assert!(s343_0(""), "s343_0");
    assert!(c343_1(), "c343_1");
    assert!(s343_1("a"), "s343_1");
    assert!(c343_2(), "c343_2");
    assert!(s343_2("abc"), "s343_2");
    assert!(c343_3(), "c343_3");
    assert!(s343_3("%a1"), "s343_3");
    assert!(c343_4(), "c343_4");
    assert!(s343_4("\u{e9}%x"), "s343_4");
    assert!(c343_5(), "c343_5");
    assert!(s343_5("a:b:c"), "s343_5");
    assert!(c343_6(), "c343_6");
    assert!(s343_6("::"), "s343_6");
    assert!(c343_7(), "c343_7");
    assert!(s343_7("  x "), "s343_7");
    assert!(c343_8(), "c343_8");
    assert!(s343_8("12"), "s343_8");
    assert!(c343_9(), "c343_9");
    assert!(s343_9("-5"), "s343_9");
    assert!(c343_10(), "c343_10");
    assert!(s343_10("+7"), "s343_10");
    assert!(c343_11(), "c343_11");
    assert!(s343_11("99999999999999999999"), "s343_11");
    assert!(c343_12(), "c343_12");
    assert!(s343_12("a\u{a}b\u{d}\u{a}c"), "s343_12");
    assert!(c343_13(), "c343_13");
    assert!(s343_13("\u{65e5}\u{672c}"), "s343_13");
    assert!(c343_14(), "c343_14");
    assert!(s343_14("\u{1f600}z"), "s343_14");
    assert!(c343_15(), "c343_15");
    assert!(s343_15("xx"), "s343_15");
    assert!(c344_0(), "c344_0");
    assert!(s344_0(""), "s344_0");
    assert!(c344_1(), "c344_1");
    assert!(s344_1("a"), "s344_1");
    assert!(c344_2(), "c344_2");
    assert!(s344_2("abc"), "s344_2");
    assert!(c344_3(), "c344_3");
    assert!(s344_3("%a1"), "s344_3");
    assert!(c344_4(), "c344_4");
    assert!(s344_4("\u{e9}%x"), "s344_4");
    assert!(c344_5(), "c344_5");
    assert!(s344_5("a:b:c"), "s344_5");
    assert!(c344_6(), "c344_6");
    assert!(s344_6("::"), "s344_6");
    assert!(c344_7(), "c344_7");
    assert!(s344_7("  x "), "s344_7");
    assert!(c344_8(), "c344_8");
    assert!(s344_8("12"), "s344_8");
    assert!(c344_9(), "c344_9");
    assert!(s344_9("-5"), "s344_9");
    assert!(c344_10(), "c344_10");
    assert!(s344_10("+7"), "s344_10");
    assert!(c344_11(), "c344_11");
    assert!(s344_11("99999999999999999999"), "s344_11");
    assert!(c344_12(), "c344_12");
    assert!(s344_12("a\u{a}b\u{d}\u{a}c"), "s344_12");
    assert!(c344_13(), "c344_13");
    assert!(s344_13("\u{65e5}\u{672c}"), "s344_13");
    assert!(c344_14(), "c344_14");
    assert!(s344_14("\u{1f600}z"), "s344_14");
    assert!(c344_15(), "c344_15");
    assert!(s344_15("xx"), "s344_15");
    assert!(c345_0(), "c345_0");
    assert!(s345_0(""), "s345_0");
    assert!(c345_1(), "c345_1");
    assert!(s345_1("a"), "s345_1");
    assert!(c345_2(), "c345_2");
    assert!(s345_2("abc"), "s345_2");
    assert!(c345_3(), "c345_3");
    assert!(s345_3("%a1"), "s345_3");
    assert!(c345_4(), "c345_4");
    assert!(s345_4("\u{e9}%x"), "s345_4");
    assert!(c345_5(), "c345_5");
    assert!(s345_5("a:b:c"), "s345_5");
    assert!(c345_6(), "c345_6");
    assert!(s345_6("::"), "s345_6");
    assert!(c345_7(), "c345_7");
    assert!(s345_7("  x "), "s345_7");
    assert!(c345_8(), "c345_8");
    assert!(s345_8("12"), "s345_8");
    assert!(c345_9(), "c345_9");
    assert!(s345_9("-5"), "s345_9");
    assert!(c345_10(), "c345_10");
    assert!(s345_10("+7"), "s345_10");
    assert!(c345_11(), "c345_11");
    assert!(s345_11("99999999999999999999"), "s345_11");
    assert!(c345_12(), "c345_12");
    assert!(s345_12("a\u{a}b\u{d}\u{a}c"), "s345_12");
    assert!(c345_13(), "c345_13");
    assert!(s345_13("\u{65e5}\u{672c}"), "s345_13");
    assert!(c345_14(), "c345_14");
    assert!(s345_14("\u{1f600}z"), "s345_14");
    assert!(c345_15(), "c345_15");
    assert!(s345_15("xx"), "s345_15");
    assert!(c346_0(), "c346_0");
    assert!(s346_0(""), "s346_0");
    assert!(c346_1(), "c346_1");
    assert!(s346_1("a"), "s346_1");
    assert!(c346_2(), "c346_2");
    assert!(s346_2("abc"), "s346_2");
    assert!(c346_3(), "c346_3");
    assert!(s346_3("%a1"), "s346_3");
    assert!(c346_4(), "c346_4");
    assert!(s346_4("\u{e9}%x"), "s346_4");
    assert!(c346_5(), "c346_5");
    assert!(s346_5("a:b:c"), "s346_5");
    assert!(c346_6(), "c346_6");
    assert!(s346_6("::"), "s346_6");
    assert!(c346_7(), "c346_7");
    assert!(s346_7("  x "), "s346_7");
    assert!(c346_8(), "c346_8");
    assert!(s346_8("12"), "s346_8");
    assert!(c346_9(), "c346_9");
    assert!(s346_9("-5"), "s346_9");
    assert!(c346_10(), "c346_10");
    assert!(s346_10("+7"), "s346_10");
    assert!(c346_11(), "c346_11");
    assert!(s346_11("99999999999999999999"), "s346_11");
    assert!(c346_12(), "c346_12");
    assert!(s346_12("a\u{a}b\u{d}\u{a}c"), "s346_12");
    assert!(c346_13(), "c346_13");
    assert!(s346_13("\u{65e5}\u{672c}"), "s346_13");
    assert!(c346_14(), "c346_14");
    assert!(s346_14("\u{1f600}z"), "s346_14");
    assert!(c346_15(), "c346_15");
    assert!(s346_15("xx"), "s346_15");
    assert!(c347_0(), "c347_0");
    assert!(s347_0(""), "s347_0");
    assert!(c347_1(), "c347_1");
    assert!(s347_1("a"), "s347_1");
    assert!(c347_2(), "c347_2");
    assert!(s347_2("abc"), "s347_2");
    assert!(c347_3(), "c347_3");
    assert!(s347_3("%a1"), "s347_3");
    assert!(c347_4(), "c347_4");
    assert!(s347_4("\u{e9}%x"), "s347_4");
    assert!(c347_5(), "c347_5");
    assert!(s347_5("a:b:c"), "s347_5");
    assert!(c347_6(), "c347_6");
    assert!(s347_6("::"), "s347_6");
    assert!(c347_7(), "c347_7");
    assert!(s347_7("  x "), "s347_7");
    assert!(c347_8(), "c347_8");
    assert!(s347_8("12"), "s347_8");
    assert!(c347_9(), "c347_9");
    assert!(s347_9("-5"), "s347_9");
    assert!(c347_10(), "c347_10");
    assert!(s347_10("+7"), "s347_10");
    assert!(c347_11(), "c347_11");
    assert!(s347_11("99999999999999999999"), "s347_11");
    assert!(c347_12(), "c347_12");
    assert!(s347_12("a\u{a}b\u{d}\u{a}c"), "s347_12");
    assert!(c347_13(), "c347_13");
    assert!(s347_13("\u{65e5}\u{672c}"), "s347_13");
    assert!(c347_14(), "c347_14");
    assert!(s347_14("\u{1f600}z"), "s347_14");
    assert!(c347_15(), "c347_15");
    assert!(s347_15("xx"), "s347_15");
    assert!(c348_0(), "c348_0");
    assert!(s348_0(""), "s348_0");
    assert!(c348_1(), "c348_1");
    assert!(s348_1("a"), "s348_1");
    assert!(c348_2(), "c348_2");
    assert!(s348_2("abc"), "s348_2");
    assert!(c348_3(), "c348_3");
    assert!(s348_3("%a1"), "s348_3");
    assert!(c348_4(), "c348_4");
    assert!(s348_4("\u{e9}%x"), "s348_4");
    assert!(c348_5(), "c348_5");
    assert!(s348_5("a:b:c"), "s348_5");
    assert!(c348_6(), "c348_6");
    assert!(s348_6("::"), "s348_6");
    assert!(c348_7(), "c348_7");
    assert!(s348_7("  x "), "s348_7");
    assert!(c348_8(), "c348_8");
    assert!(s348_8("12"), "s348_8");
    assert!(c348_9(), "c348_9");
    assert!(s348_9("-5"), "s348_9");
    assert!(c348_10(), "c348_10");
    assert!(s348_10("+7"), "s348_10");
    assert!(c348_11(), "c348_11");
    assert!(s348_11("99999999999999999999"), "s348_11");
    assert!(c348_12(), "c348_12");
    assert!(s348_12("a\u{a}b\u{d}\u{a}c"), "s348_12");
    assert!(c348_13(), "c348_13");
    assert!(s348_13("\u{65e5}\u{672c}"), "s348_13");
    assert!(c348_14(), "c348_14");
    assert!(s348_14("\u{1f600}z"), "s348_14");
    assert!(c348_15(), "c348_15");
    assert!(s348_15("xx"), "s348_15");
    assert!(c349_0(), "c349_0");
    assert!(s349_0(""), "s349_0");
    assert!(c349_1(), "c349_1");
    assert!(s349_1("a"), "s349_1");
    assert!(c349_2(), "c349_2");
    assert!(s349_2("abc"), "s349_2");
    assert!(c349_3(), "c349_3");
    assert!(s349_3("%a1"), "s349_3");
    assert!(c349_4(), "c349_4");
    assert!(s349_4("\u{e9}%x"), "s349_4");
    assert!(c349_5(), "c349_5");
    assert!(s349_5("a:b:c"), "s349_5");
    assert!(c349_6(), "c349_6");
    assert!(s349_6("::"), "s349_6");
    assert!(c349_7(), "c349_7");
    assert!(s349_7("  x "), "s349_7");
    assert!(c349_8(), "c349_8");
    assert!(s349_8("12"), "s349_8");
    assert!(c349_9(), "c349_9");
    assert!(s349_9("-5"), "s349_9");
    assert!(c349_10(), "c349_10");
    assert!(s349_10("+7"), "s349_10");
    assert!(c349_11(), "c349_11");
    assert!(s349_11("99999999999999999999"), "s349_11");
    assert!(c349_12(), "c349_12");
    assert!(s349_12("a\u{a}b\u{d}\u{a}c"), "s349_12");
    assert!(c349_13(), "c349_13");
    assert!(s349_13("\u{65e5}\u{672c}"), "s349_13");
    assert!(c349_14(), "c349_14");
    assert!(s349_14("\u{1f600}z"), "s349_14");
    assert!(c349_15(), "c349_15");
    assert!(s349_15("xx"), "s349_15");
    assert!(c350_0(), "c350_0");
    assert!(s350_0(""), "s350_0");
    assert!(c350_1(), "c350_1");
    assert!(s350_1("a"), "s350_1");
    assert!(c350_2(), "c350_2");
    assert!(s350_2("abc"), "s350_2");
    assert!(c350_3(), "c350_3");
    assert!(s350_3("%a1"), "s350_3");
    assert!(c350_4(), "c350_4");
    assert!(s350_4("\u{e9}%x"), "s350_4");
    assert!(c350_5(), "c350_5");
    assert!(s350_5("a:b:c"), "s350_5");
    assert!(c350_6(), "c350_6");
    assert!(s350_6("::"), "s350_6");
    assert!(c350_7(), "c350_7");
    assert!(s350_7("  x "), "s350_7");
    assert!(c350_8(), "c350_8");
    assert!(s350_8("12"), "s350_8");
    assert!(c350_9(), "c350_9");
    assert!(s350_9("-5"), "s350_9");
    assert!(c350_10(), "c350_10");
    assert!(s350_10("+7"), "s350_10");
    assert!(c350_11(), "c350_11");
    assert!(s350_11("99999999999999999999"), "s350_11");
    assert!(c350_12(), "c350_12");
    assert!(s350_12("a\u{a}b\u{d}\u{a}c"), "s350_12");
    assert!(c350_13(), "c350_13");
    assert!(s350_13("\u{65e5}\u{672c}"), "s350_13");
    assert!(c350_14(), "c350_14");
    assert!(s350_14("\u{1f600}z"), "s350_14");
    assert!(c350_15(), "c350_15");
    assert!(s350_15("xx"), "s350_15");
    assert!(c351_0(), "c351_0");
    assert!(s351_0(""), "s351_0");
    assert!(c351_1(), "c351_1");
    assert!(s351_1("a"), "s351_1");
    assert!(c351_2(), "c351_2");
    assert!(s351_2("abc"), "s351_2");
    assert!(c351_3(), "c351_3");
    assert!(s351_3("%a1"), "s351_3");
    assert!(c351_4(), "c351_4");
    assert!(s351_4("\u{e9}%x"), "s351_4");
    assert!(c351_5(), "c351_5");
    assert!(s351_5("a:b:c"), "s351_5");
    assert!(c351_6(), "c351_6");
    assert!(s351_6("::"), "s351_6");
    assert!(c351_7(), "c351_7");
    assert!(s351_7("  x "), "s351_7");
    assert!(c351_8(), "c351_8");
    assert!(s351_8("12"), "s351_8");
    assert!(c351_9(), "c351_9");
    assert!(s351_9("-5"), "s351_9");
    assert!(c351_10(), "c351_10");
    assert!(s351_10("+7"), "s351_10");
    assert!(c351_11(), "c351_11");
    assert!(s351_11("99999999999999999999"), "s351_11");
    assert!(c351_12(), "c351_12");
    assert!(s351_12("a\u{a}b\u{d}\u{a}c"), "s351_12");
    assert!(c351_13(), "c351_13");
    assert!(s351_13("\u{65e5}\u{672c}"), "s351_13");
    assert!(c351_14(), "c351_14");
    assert!(s351_14("\u{1f600}z"), "s351_14");
    assert!(c351_15(), "c351_15");
    assert!(s351_15("xx"), "s351_15");
    assert!(c352_0(), "c352_0");
    assert!(s352_0(""), "s352_0");
    assert!(c352_1(), "c352_1");
    assert!(s352_1("a"), "s352_1");
    assert!(c352_2(), "c352_2");
    assert!(s352_2("abc"), "s352_2");
    assert!(c352_3(), "c352_3");
    assert!(s352_3("%a1"), "s352_3");
    assert!(c352_4(), "c352_4");
    assert!(s352_4("\u{e9}%x"), "s352_4");
    assert!(c352_5(), "c352_5");
    assert!(s352_5("a:b:c"), "s352_5");
    assert!(c352_6(), "c352_6");
    assert!(s352_6("::"), "s352_6");
    assert!(c352_7(), "c352_7");
    assert!(s352_7("  x "), "s352_7");
    assert!(c352_8(), "c352_8");
    assert!(s352_8("12"), "s352_8");
    assert!(c352_9(), "c352_9");
    assert!(s352_9("-5"), "s352_9");
    assert!(c352_10(), "c352_10");
    assert!(s352_10("+7"), "s352_10");
    assert!(c352_11(), "c352_11");
    assert!(s352_11("99999999999999999999"), "s352_11");
    assert!(c352_12(), "c352_12");
    assert!(s352_12("a\u{a}b\u{d}\u{a}c"), "s352_12");
    assert!(c352_13(), "c352_13");
    assert!(s352_13("\u{65e5}\u{672c}"), "s352_13");
    assert!(c352_14(), "c352_14");
    assert!(s352_14("\u{1f600}z"), "s352_14");
    assert!(c352_15(), "c352_15");
    assert!(s352_15("xx"), "s352_15");
    assert!(c353_0(), "c353_0");
    assert!(s353_0(""), "s353_0");
    assert!(c353_1(), "c353_1");
    assert!(s353_1("a"), "s353_1");
    assert!(c353_2(), "c353_2");
    assert!(s353_2("abc"), "s353_2");
    assert!(c353_3(), "c353_3");
    assert!(s353_3("%a1"), "s353_3");
    assert!(c353_4(), "c353_4");
    assert!(s353_4("\u{e9}%x"), "s353_4");
    assert!(c353_5(), "c353_5");
    assert!(s353_5("a:b:c"), "s353_5");
    assert!(c353_6(), "c353_6");
    assert!(s353_6("::"), "s353_6");
    assert!(c353_7(), "c353_7");
    assert!(s353_7("  x "), "s353_7");
    assert!(c353_8(), "c353_8");
    assert!(s353_8("12"), "s353_8");
    assert!(c353_9(), "c353_9");
    assert!(s353_9("-5"), "s353_9");
    assert!(c353_10(), "c353_10");
    assert!(s353_10("+7"), "s353_10");
    assert!(c353_11(), "c353_11");
    assert!(s353_11("99999999999999999999"), "s353_11");
    assert!(c353_12(), "c353_12");
    assert!(s353_12("a\u{a}b\u{d}\u{a}c"), "s353_12");
    assert!(c353_13(), "c353_13");
    assert!(s353_13("\u{65e5}\u{672c}"), "s353_13");
    assert!(c353_14(), "c353_14");
    assert!(s353_14("\u{1f600}z"), "s353_14");
    assert!(c353_15(), "c353_15");
    assert!(s353_15("xx"), "s353_15");
    assert!(c354_0(), "c354_0");
    assert!(s354_0(""), "s354_0");
    assert!(c354_1(), "c354_1");
    assert!(s354_1("a"), "s354_1");
    assert!(c354_2(), "c354_2");
    assert!(s354_2("abc"), "s354_2");
    assert!(c354_3(), "c354_3");
    assert!(s354_3("%a1"), "s354_3");
    assert!(c354_4(), "c354_4");
    assert!(s354_4("\u{e9}%x"), "s354_4");
    assert!(c354_5(), "c354_5");
    assert!(s354_5("a:b:c"), "s354_5");
    assert!(c354_6(), "c354_6");
    assert!(s354_6("::"), "s354_6");
    assert!(c354_7(), "c354_7");
    assert!(s354_7("  x "), "s354_7");
    assert!(c354_8(), "c354_8");
    assert!(s354_8("12"), "s354_8");
    assert!(c354_9(), "c354_9");
    assert!(s354_9("-5"), "s354_9");
    assert!(c354_10(), "c354_10");
    assert!(s354_10("+7"), "s354_10");
    assert!(c354_11(), "c354_11");
    assert!(s354_11("99999999999999999999"), "s354_11");
    assert!(c354_12(), "c354_12");
    assert!(s354_12("a\u{a}b\u{d}\u{a}c"), "s354_12");
    assert!(c354_13(), "c354_13");
    assert!(s354_13("\u{65e5}\u{672c}"), "s354_13");
    assert!(c354_14(), "c354_14");
    assert!(s354_14("\u{1f600}z"), "s354_14");
    assert!(c354_15(), "c354_15");
    assert!(s354_15("xx"), "s354_15");
    assert!(c355_0(), "c355_0");
    assert!(s355_0(""), "s355_0");
    assert!(c355_1(), "c355_1");
    assert!(s355_1("a"), "s355_1");
    assert!(c355_2(), "c355_2");
    assert!(s355_2("abc"), "s355_2");
    assert!(c355_3(), "c355_3");
    assert!(s355_3("%a1"), "s355_3");
    assert!(c355_4(), "c355_4");
    assert!(s355_4("\u{e9}%x"), "s355_4");
    assert!(c355_5(), "c355_5");
    assert!(s355_5("a:b:c"), "s355_5");
    assert!(c355_6(), "c355_6");
    assert!(s355_6("::"), "s355_6");
    assert!(c355_7(), "c355_7");
    assert!(s355_7("  x "), "s355_7");
    assert!(c355_8(), "c355_8");
    assert!(s355_8("12"), "s355_8");
    assert!(c355_9(), "c355_9");
    assert!(s355_9("-5"), "s355_9");
    assert!(c355_10(), "c355_10");
    assert!(s355_10("+7"), "s355_10");
    assert!(c355_11(), "c355_11");
    assert!(s355_11("99999999999999999999"), "s355_11");
    assert!(c355_12(), "c355_12");
    assert!(s355_12("a\u{a}b\u{d}\u{a}c"), "s355_12");
    assert!(c355_13(), "c355_13");
    assert!(s355_13("\u{65e5}\u{672c}"), "s355_13");
    assert!(c355_14(), "c355_14");
    assert!(s355_14("\u{1f600}z"), "s355_14");
    assert!(c355_15(), "c355_15");
    assert!(s355_15("xx"), "s355_15");
    assert!(c356_0(), "c356_0");
    assert!(s356_0(""), "s356_0");
    assert!(c356_1(), "c356_1");
    assert!(s356_1("a"), "s356_1");
    assert!(c356_2(), "c356_2");
    assert!(s356_2("abc"), "s356_2");
    assert!(c356_3(), "c356_3");
    assert!(s356_3("%a1"), "s356_3");
    assert!(c356_4(), "c356_4");
    assert!(s356_4("\u{e9}%x"), "s356_4");
    assert!(c356_5(), "c356_5");
    assert!(s356_5("a:b:c"), "s356_5");
    assert!(c356_6(), "c356_6");
    assert!(s356_6("::"), "s356_6");
    assert!(c356_7(), "c356_7");
    assert!(s356_7("  x "), "s356_7");
    assert!(c356_8(), "c356_8");
    assert!(s356_8("12"), "s356_8");
    assert!(c356_9(), "c356_9");
    assert!(s356_9("-5"), "s356_9");
    assert!(c356_10(), "c356_10");
    assert!(s356_10("+7"), "s356_10");
    assert!(c356_11(), "c356_11");
    assert!(s356_11("99999999999999999999"), "s356_11");
    assert!(c356_12(), "c356_12");
    assert!(s356_12("a\u{a}b\u{d}\u{a}c"), "s356_12");
    assert!(c356_13(), "c356_13");
    assert!(s356_13("\u{65e5}\u{672c}"), "s356_13");
    assert!(c356_14(), "c356_14");
    assert!(s356_14("\u{1f600}z"), "s356_14");
    assert!(c356_15(), "c356_15");
    assert!(s356_15("xx"), "s356_15");
    assert!(c357_0(), "c357_0");
    assert!(s357_0(""), "s357_0");
    assert!(c357_1(), "c357_1");
    assert!(s357_1("a"), "s357_1");
    assert!(c357_2(), "c357_2");
    assert!(s357_2("abc"), "s357_2");
    assert!(c357_3(), "c357_3");
    assert!(s357_3("%a1"), "s357_3");
    assert!(c357_4(), "c357_4");
    assert!(s357_4("\u{e9}%x"), "s357_4");
    assert!(c357_5(), "c357_5");
    assert!(s357_5("a:b:c"), "s357_5");
    assert!(c357_6(), "c357_6");
    assert!(s357_6("::"), "s357_6");
    assert!(c357_7(), "c357_7");
    assert!(s357_7("  x "), "s357_7");
    assert!(c357_8(), "c357_8");
    assert!(s357_8("12"), "s357_8");
    assert!(c357_9(), "c357_9");
    assert!(s357_9("-5"), "s357_9");
    assert!(c357_10(), "c357_10");
    assert!(s357_10("+7"), "s357_10");
    assert!(c357_11(), "c357_11");
    assert!(s357_11("99999999999999999999"), "s357_11");
    assert!(c357_12(), "c357_12");
    assert!(s357_12("a\u{a}b\u{d}\u{a}c"), "s357_12");
    assert!(c357_13(), "c357_13");
    assert!(s357_13("\u{65e5}\u{672c}"), "s357_13");
    assert!(c357_14(), "c357_14");
    assert!(s357_14("\u{1f600}z"), "s357_14");
    assert!(c357_15(), "c357_15");
    assert!(s357_15("xx"), "s357_15");
    assert!(c358_0(), "c358_0");
    assert!(s358_0(""), "s358_0");
    assert!(c358_1(), "c358_1");
    assert!(s358_1("a"), "s358_1");
    assert!(c358_2(), "c358_2");
    assert!(s358_2("abc"), "s358_2");
    assert!(c358_3(), "c358_3");
    assert!(s358_3("%a1"), "s358_3");
    assert!(c358_4(), "c358_4");
    assert!(s358_4("\u{e9}%x"), "s358_4");
    assert!(c358_5(), "c358_5");
    assert!(s358_5("a:b:c"), "s358_5");
    assert!(c358_6(), "c358_6");
    assert!(s358_6("::"), "s358_6");
    assert!(c358_7(), "c358_7");
    assert!(s358_7("  x "), "s358_7");
    assert!(c358_8(), "c358_8");
    assert!(s358_8("12"), "s358_8");
    assert!(c358_9(), "c358_9");
    assert!(s358_9("-5"), "s358_9");
    assert!(c358_10(), "c358_10");
    assert!(s358_10("+7"), "s358_10");
    assert!(c358_11(), "c358_11");
    assert!(s358_11("99999999999999999999"), "s358_11");
    assert!(c358_12(), "c358_12");
    assert!(s358_12("a\u{a}b\u{d}\u{a}c"), "s358_12");
    assert!(c358_13(), "c358_13");
    assert!(s358_13("\u{65e5}\u{672c}"), "s358_13");
    assert!(c358_14(), "c358_14");
    assert!(s358_14("\u{1f600}z"), "s358_14");
    assert!(c358_15(), "c358_15");
    assert!(s358_15("xx"), "s358_15");
    assert!(c359_0(), "c359_0");
    assert!(s359_0(""), "s359_0");
    assert!(c359_1(), "c359_1");
    assert!(s359_1("a"), "s359_1");
    assert!(c359_2(), "c359_2");
    assert!(s359_2("abc"), "s359_2");
    assert!(c359_3(), "c359_3");
    assert!(s359_3("%a1"), "s359_3");
    assert!(c359_4(), "c359_4");
    assert!(s359_4("\u{e9}%x"), "s359_4");
    assert!(c359_5(), "c359_5");
    assert!(s359_5("a:b:c"), "s359_5");
    assert!(c359_6(), "c359_6");
    assert!(s359_6("::"), "s359_6");
    assert!(c359_7(), "c359_7");
    assert!(s359_7("  x "), "s359_7");
    assert!(c359_8(), "c359_8");
    assert!(s359_8("12"), "s359_8");
    assert!(c359_9(), "c359_9");
    assert!(s359_9("-5"), "s359_9");
    assert!(c359_10(), "c359_10");
    assert!(s359_10("+7"), "s359_10");
    assert!(c359_11(), "c359_11");
    assert!(s359_11("99999999999999999999"), "s359_11");
    assert!(c359_12(), "c359_12");
    assert!(s359_12("a\u{a}b\u{d}\u{a}c"), "s359_12");
    assert!(c359_13(), "c359_13");
    assert!(s359_13("\u{65e5}\u{672c}"), "s359_13");
    assert!(c359_14(), "c359_14");
    assert!(s359_14("\u{1f600}z"), "s359_14");
    assert!(c359_15(), "c359_15");
    assert!(s359_15("xx"), "s359_15");
    assert!(c360_0(), "c360_0");
    assert!(s360_0(""), "s360_0");
    assert!(c360_1(), "c360_1");
    assert!(s360_1("a"), "s360_1");
    assert!(c360_2(), "c360_2");
    assert!(s360_2("abc"), "s360_2");
    assert!(c360_3(), "c360_3");
    assert!(s360_3("%a1"), "s360_3");
    assert!(c360_4(), "c360_4");
    assert!(s360_4("\u{e9}%x"), "s360_4");
    assert!(c360_5(), "c360_5");
    assert!(s360_5("a:b:c"), "s360_5");
    assert!(c360_6(), "c360_6");
    assert!(s360_6("::"), "s360_6");
    assert!(c360_7(), "c360_7");
    assert!(s360_7("  x "), "s360_7");
    assert!(c360_8(), "c360_8");
    assert!(s360_8("12"), "s360_8");
    assert!(c360_9(), "c360_9");
    assert!(s360_9("-5"), "s360_9");
    assert!(c360_10(), "c360_10");
    assert!(s360_10("+7"), "s360_10");
    assert!(c360_11(), "c360_11");
    assert!(s360_11("99999999999999999999"), "s360_11");
    assert!(c360_12(), "c360_12");
    assert!(s360_12("a\u{a}b\u{d}\u{a}c"), "s360_12");
    assert!(c360_13(), "c360_13");
    assert!(s360_13("\u{65e5}\u{672c}"), "s360_13");
    assert!(c360_14(), "c360_14");
    assert!(s360_14("\u{1f600}z"), "s360_14");
    assert!(c360_15(), "c360_15");
    assert!(s360_15("xx"), "s360_15");
    assert!(c361_0(), "c361_0");
    assert!(s361_0(""), "s361_0");
    assert!(c361_1(), "c361_1");
    assert!(s361_1("a"), "s361_1");
    assert!(c361_2(), "c361_2");
    assert!(s361_2("abc"), "s361_2");
    assert!(c361_3(), "c361_3");
    assert!(s361_3("%a1"), "s361_3");
    assert!(c361_4(), "c361_4");
    assert!(s361_4("\u{e9}%x"), "s361_4");
    assert!(c361_5(), "c361_5");
    assert!(s361_5("a:b:c"), "s361_5");
    assert!(c361_6(), "c361_6");
    assert!(s361_6("::"), "s361_6");
    assert!(c361_7(), "c361_7");
    assert!(s361_7("  x "), "s361_7");
    assert!(c361_8(), "c361_8");
    assert!(s361_8("12"), "s361_8");
    assert!(c361_9(), "c361_9");
    assert!(s361_9("-5"), "s361_9");
    assert!(c361_10(), "c361_10");
    assert!(s361_10("+7"), "s361_10");
    assert!(c361_11(), "c361_11");
    assert!(s361_11("99999999999999999999"), "s361_11");
    assert!(c361_12(), "c361_12");
    assert!(s361_12("a\u{a}b\u{d}\u{a}c"), "s361_12");
    assert!(c361_13(), "c361_13");
    assert!(s361_13("\u{65e5}\u{672c}"), "s361_13");
    assert!(c361_14(), "c361_14");
    assert!(s361_14("\u{1f600}z"), "s361_14");
    assert!(c361_15(), "c361_15");
    assert!(s361_15("xx"), "s361_15");
    assert!(c362_0(), "c362_0");
    assert!(s362_0(""), "s362_0");
    assert!(c362_1(), "c362_1");
    assert!(s362_1("a"), "s362_1");
    assert!(c362_2(), "c362_2");
    assert!(s362_2("abc"), "s362_2");
    assert!(c362_3(), "c362_3");
    assert!(s362_3("%a1"), "s362_3");
    assert!(c362_4(), "c362_4");
    assert!(s362_4("\u{e9}%x"), "s362_4");
    assert!(c362_5(), "c362_5");
    assert!(s362_5("a:b:c"), "s362_5");
    assert!(c362_6(), "c362_6");
    assert!(s362_6("::"), "s362_6");
    assert!(c362_7(), "c362_7");
    assert!(s362_7("  x "), "s362_7");
    assert!(c362_8(), "c362_8");
    assert!(s362_8("12"), "s362_8");
    assert!(c362_9(), "c362_9");
    assert!(s362_9("-5"), "s362_9");
    assert!(c362_10(), "c362_10");
    assert!(s362_10("+7"), "s362_10");
    assert!(c362_11(), "c362_11");
    assert!(s362_11("99999999999999999999"), "s362_11");
    assert!(c362_12(), "c362_12");
    assert!(s362_12("a\u{a}b\u{d}\u{a}c"), "s362_12");
    assert!(c362_13(), "c362_13");
    assert!(s362_13("\u{65e5}\u{672c}"), "s362_13");
    assert!(c362_14(), "c362_14");
    assert!(s362_14("\u{1f600}z"), "s362_14");
    assert!(c362_15(), "c362_15");
    assert!(s362_15("xx"), "s362_15");
    assert!(c363_0(), "c363_0");
    assert!(s363_0(""), "s363_0");
    assert!(c363_1(), "c363_1");
    assert!(s363_1("a"), "s363_1");
    assert!(c363_2(), "c363_2");
    assert!(s363_2("abc"), "s363_2");
    assert!(c363_3(), "c363_3");
    assert!(s363_3("%a1"), "s363_3");
    assert!(c363_4(), "c363_4");
    assert!(s363_4("\u{e9}%x"), "s363_4");
    assert!(c363_5(), "c363_5");
    assert!(s363_5("a:b:c"), "s363_5");
    assert!(c363_6(), "c363_6");
    assert!(s363_6("::"), "s363_6");
    assert!(c363_7(), "c363_7");
    assert!(s363_7("  x "), "s363_7");
    assert!(c363_8(), "c363_8");
    assert!(s363_8("12"), "s363_8");
    assert!(c363_9(), "c363_9");
    assert!(s363_9("-5"), "s363_9");
    assert!(c363_10(), "c363_10");
    assert!(s363_10("+7"), "s363_10");
    assert!(c363_11(), "c363_11");
    assert!(s363_11("99999999999999999999"), "s363_11");
    assert!(c363_12(), "c363_12");
    assert!(s363_12("a\u{a}b\u{d}\u{a}c"), "s363_12");
    assert!(c363_13(), "c363_13");
    assert!(s363_13("\u{65e5}\u{672c}"), "s363_13");
    assert!(c363_14(), "c363_14");
    assert!(s363_14("\u{1f600}z"), "s363_14");
    assert!(c363_15(), "c363_15");
    assert!(s363_15("xx"), "s363_15");
    assert!(c364_0(), "c364_0");
    assert!(s364_0(""), "s364_0");
    assert!(c364_1(), "c364_1");
    assert!(s364_1("a"), "s364_1");
    assert!(c364_2(), "c364_2");
    assert!(s364_2("abc"), "s364_2");
    assert!(c364_3(), "c364_3");
    assert!(s364_3("%a1"), "s364_3");
    assert!(c364_4(), "c364_4");
    assert!(s364_4("\u{e9}%x"), "s364_4");
    assert!(c364_5(), "c364_5");
    assert!(s364_5("a:b:c"), "s364_5");
    assert!(c364_6(), "c364_6");
    assert!(s364_6("::"), "s364_6");
    assert!(c364_7(), "c364_7");
    assert!(s364_7("  x "), "s364_7");
    assert!(c364_8(), "c364_8");
    assert!(s364_8("12"), "s364_8");
    assert!(c364_9(), "c364_9");
    assert!(s364_9("-5"), "s364_9");
    assert!(c364_10(), "c364_10");
    assert!(s364_10("+7"), "s364_10");
    assert!(c364_11(), "c364_11");
    assert!(s364_11("99999999999999999999"), "s364_11");
    assert!(c364_12(), "c364_12");
    assert!(s364_12("a\u{a}b\u{d}\u{a}c"), "s364_12");
    assert!(c364_13(), "c364_13");
    assert!(s364_13("\u{65e5}\u{672c}"), "s364_13");
    assert!(c364_14(), "c364_14");
    assert!(s364_14("\u{1f600}z"), "s364_14");
    assert!(c364_15(), "c364_15");
    assert!(s364_15("xx"), "s364_15");
    assert!(c365_0(), "c365_0");
    assert!(c365_1(), "c365_1");
    assert!(c365_2(), "c365_2");
    assert!(c365_3(), "c365_3");
    assert!(c365_4(), "c365_4");
    assert!(c366_0(), "c366_0");
    assert!(c366_1(), "c366_1");
    assert!(c366_2(), "c366_2");
    assert!(c366_3(), "c366_3");
    assert!(c366_4(), "c366_4");
    assert!(c367_0(), "c367_0");
    assert!(c367_1(), "c367_1");
    assert!(c367_2(), "c367_2");
    assert!(c367_3(), "c367_3");
    assert!(c367_4(), "c367_4");
    assert!(c368_0(), "c368_0");
    assert!(c368_1(), "c368_1");
    assert!(c368_2(), "c368_2");
    assert!(c368_3(), "c368_3");
    assert!(c368_4(), "c368_4");
    assert!(c369_0(), "c369_0");
    assert!(c369_1(), "c369_1");
    assert!(c369_2(), "c369_2");
    assert!(c369_3(), "c369_3");
    assert!(c369_4(), "c369_4");
    assert!(c370_0(), "c370_0");
    assert!(c370_1(), "c370_1");
    assert!(c370_2(), "c370_2");
    assert!(c370_3(), "c370_3");
    assert!(c370_4(), "c370_4");
    assert!(c371_0(), "c371_0");
    assert!(c371_1(), "c371_1");
    assert!(c371_2(), "c371_2");
    assert!(c371_3(), "c371_3");
    assert!(c371_4(), "c371_4");
    assert!(c372_0(), "c372_0");
    assert!(c372_1(), "c372_1");
    assert!(c372_2(), "c372_2");
    assert!(c372_3(), "c372_3");
    assert!(c372_4(), "c372_4");
    assert!(c373_0(), "c373_0");
    assert!(c373_1(), "c373_1");
    assert!(c373_2(), "c373_2");
    assert!(c373_3(), "c373_3");
    assert!(c373_4(), "c373_4");
    assert!(c374_0(), "c374_0");
    assert!(c374_1(), "c374_1");
    assert!(c374_2(), "c374_2");
    assert!(c374_3(), "c374_3");
    assert!(c374_4(), "c374_4");
    assert!(c375_0(), "c375_0");
    assert!(c375_1(), "c375_1");
    assert!(c375_2(), "c375_2");
    assert!(c375_3(), "c375_3");
    assert!(c375_4(), "c375_4");
    assert!(c376_0(), "c376_0");
    assert!(c376_1(), "c376_1");
    assert!(c376_2(), "c376_2");
    assert!(c376_3(), "c376_3");
    assert!(c376_4(), "c376_4");
    assert!(c377_0(), "c377_0");
    assert!(c377_1(), "c377_1");
    assert!(c377_2(), "c377_2");
    assert!(c377_3(), "c377_3");
    assert!(c377_4(), "c377_4");
    assert!(c378_0(), "c378_0");
    assert!(c378_1(), "c378_1");
    assert!(c378_2(), "c378_2");
    assert!(c378_3(), "c378_3");
    assert!(c378_4(), "c378_4");
    assert!(c379_0(), "c379_0");
    assert!(c379_1(), "c379_1");
    assert!(c379_2(), "c379_2");
    assert!(c379_3(), "c379_3");
    assert!(c379_4(), "c379_4");
    assert!(c380_0(), "c380_0");
    assert!(c380_1(), "c380_1");
    assert!(c380_2(), "c380_2");
    assert!(c380_3(), "c380_3");
    assert!(c380_4(), "c380_4");
    assert!(c381_0(), "c381_0");
    assert!(c381_1(), "c381_1");
    assert!(c381_2(), "c381_2");
    assert!(c381_3(), "c381_3");
    assert!(c381_4(), "c381_4");
    assert!(c382_0(), "c382_0");
    assert!(c382_1(), "c382_1");
    assert!(c382_2(), "c382_2");
    assert!(c382_3(), "c382_3");
    assert!(c382_4(), "c382_4");
    assert!(c383_0(), "c383_0");
    assert!(c383_1(), "c383_1");
    assert!(c383_2(), "c383_2");
    assert!(c383_3(), "c383_3");
    assert!(c383_4(), "c383_4");
    assert!(c384_0(), "c384_0");
    assert!(c384_1(), "c384_1");
    assert!(c384_2(), "c384_2");
    assert!(c384_3(), "c384_3");
    assert!(c384_4(), "c384_4");
    assert!(c385_0(), "c385_0");
    assert!(c385_1(), "c385_1");
    assert!(c385_2(), "c385_2");
    assert!(c385_3(), "c385_3");
    assert!(c385_4(), "c385_4");
    assert!(c386_0(), "c386_0");
    assert!(c386_1(), "c386_1");
    assert!(c386_2(), "c386_2");
    assert!(c386_3(), "c386_3");
    assert!(c386_4(), "c386_4");
    assert!(c387_0(), "c387_0");
    assert!(c387_1(), "c387_1");
    assert!(c387_2(), "c387_2");
    assert!(c387_3(), "c387_3");
    assert!(c387_4(), "c387_4");
    assert!(c388_0(), "c388_0");
    assert!(c388_1(), "c388_1");
    assert!(c388_2(), "c388_2");
    assert!(c388_3(), "c388_3");
    assert!(c388_4(), "c388_4");
    assert!(c389_0(), "c389_0");
    assert!(c389_1(), "c389_1");
    assert!(c389_2(), "c389_2");
    assert!(c389_3(), "c389_3");
    assert!(c389_4(), "c389_4");
    assert!(c390_0(), "c390_0");
    assert!(c390_1(), "c390_1");
    assert!(c390_2(), "c390_2");
    assert!(c390_3(), "c390_3");
    assert!(c390_4(), "c390_4");
    assert!(c391_0(), "c391_0");
    assert!(c391_1(), "c391_1");
    assert!(c391_2(), "c391_2");
    assert!(c391_3(), "c391_3");
    assert!(c391_4(), "c391_4");
    assert!(c392_0(), "c392_0");
    assert!(c392_1(), "c392_1");
    assert!(c392_2(), "c392_2");
    assert!(c392_3(), "c392_3");
    assert!(c392_4(), "c392_4");
    assert!(c393_0(), "c393_0");
    assert!(c393_1(), "c393_1");
    assert!(c393_2(), "c393_2");
    assert!(c393_3(), "c393_3");
    assert!(c393_4(), "c393_4");
    assert!(c394_0(), "c394_0");
    assert!(c394_1(), "c394_1");
    assert!(c394_2(), "c394_2");
    assert!(c394_3(), "c394_3");
    assert!(c394_4(), "c394_4");
    assert!(c395_0(), "c395_0");
    assert!(c395_1(), "c395_1");
    assert!(c395_2(), "c395_2");
    assert!(c395_3(), "c395_3");
    assert!(c395_4(), "c395_4");
    assert!(c396_0(), "c396_0");
    assert!(c396_1(), "c396_1");
    assert!(c396_2(), "c396_2");
    assert!(c396_3(), "c396_3");
    assert!(c396_4(), "c396_4");
    assert!(c397_0(), "c397_0");
    assert!(c397_1(), "c397_1");
    assert!(c397_2(), "c397_2");
    assert!(c397_3(), "c397_3");
    assert!(c397_4(), "c397_4");
    assert!(c398_0(), "c398_0");
    assert!(c398_1(), "c398_1");
    assert!(c398_2(), "c398_2");
    assert!(c398_3(), "c398_3");
    assert!(c398_4(), "c398_4");
    assert!(c399_0(), "c399_0");
    assert!(c399_1(), "c399_1");
    assert!(c399_2(), "c399_2");
    assert!(c399_3(), "c399_3");
    assert!(c399_4(), "c399_4");
    assert!(c400_0(), "c400_0");
    assert!(c400_1(), "c400_1");
    assert!(c400_2(), "c400_2");
    assert!(c400_3(), "c400_3");
    assert!(c400_4(), "c400_4");
    assert!(c401_0(), "c401_0");
    assert!(c401_1(), "c401_1");
    assert!(c401_2(), "c401_2");
    assert!(c401_3(), "c401_3");
    assert!(c401_4(), "c401_4");
    assert!(c402_0(), "c402_0");
    assert!(c402_1(), "c402_1");
    assert!(c402_2(), "c402_2");
    assert!(c402_3(), "c402_3");
    assert!(c402_4(), "c402_4");
    assert!(c403_0(), "c403_0");
    assert!(c403_1(), "c403_1");
    assert!(c403_2(), "c403_2");
    assert!(c403_3(), "c403_3");
    assert!(c403_4(), "c403_4");
    assert!(c404_0(), "c404_0");
    assert!(c404_1(), "c404_1");
    assert!(c404_2(), "c404_2");
    assert!(c404_3(), "c404_3");
    assert!(c404_4(), "c404_4");
    assert!(c405_0(), "c405_0");
    assert!(c405_1(), "c405_1");
    assert!(c405_2(), "c405_2");
    assert!(c405_3(), "c405_3");
    assert!(c405_4(), "c405_4");
    assert!(c406_0(), "c406_0");
    assert!(c406_1(), "c406_1");
    assert!(c406_2(), "c406_2");
    assert!(c406_3(), "c406_3");
    assert!(c406_4(), "c406_4");
    assert!(c407_0(), "c407_0");
    assert!(c407_1(), "c407_1");
    assert!(c407_2(), "c407_2");
    assert!(c407_3(), "c407_3");
    assert!(c407_4(), "c407_4");
    assert!(c408_0(), "c408_0");
    assert!(c408_1(), "c408_1");
    assert!(c408_2(), "c408_2");
    assert!(c408_3(), "c408_3");
    assert!(c408_4(), "c408_4");
    assert!(c409_0(), "c409_0");
    assert!(c409_1(), "c409_1");
    assert!(c409_2(), "c409_2");
    assert!(c409_3(), "c409_3");
    assert!(c409_4(), "c409_4");
    assert!(c410_0(), "c410_0");
    assert!(c410_1(), "c410_1");
    assert!(c410_2(), "c410_2");
    assert!(c410_3(), "c410_3");
    assert!(c410_4(), "c410_4");
    assert!(c411_0(), "c411_0");
    assert!(c411_1(), "c411_1");
    assert!(c411_2(), "c411_2");
    assert!(c411_3(), "c411_3");
    assert!(c411_4(), "c411_4");
    assert!(c412_0(), "c412_0");
    assert!(c412_1(), "c412_1");
    assert!(c412_2(), "c412_2");
    assert!(c412_3(), "c412_3");
    assert!(c412_4(), "c412_4");
    assert!(c413_0(), "c413_0");
    assert!(c413_1(), "c413_1");
    assert!(c413_2(), "c413_2");
    assert!(c413_3(), "c413_3");
    assert!(c413_4(), "c413_4");
    assert!(c414_0(), "c414_0");
    assert!(c414_1(), "c414_1");
    assert!(c414_2(), "c414_2");
    assert!(c414_3(), "c414_3");
    assert!(c414_4(), "c414_4");
    assert!(c415_0(), "c415_0");
    assert!(c415_1(), "c415_1");
    assert!(c415_2(), "c415_2");
    assert!(c415_3(), "c415_3");
    assert!(c415_4(), "c415_4");
    assert!(c416_0(), "c416_0");
    assert!(c416_1(), "c416_1");
    assert!(c416_2(), "c416_2");
    assert!(c416_3(), "c416_3");
    assert!(c416_4(), "c416_4");
    assert!(c417_0(), "c417_0");
    assert!(c417_1(), "c417_1");
    assert!(c417_2(), "c417_2");
    assert!(c417_3(), "c417_3");
    assert!(c417_4(), "c417_4");
    assert!(c418_0(), "c418_0");
    assert!(c418_1(), "c418_1");
    assert!(c418_2(), "c418_2");
    assert!(c418_3(), "c418_3");
    assert!(c418_4(), "c418_4");
    assert!(c419_0(), "c419_0");
    assert!(c419_1(), "c419_1");
    assert!(c419_2(), "c419_2");
    assert!(c419_3(), "c419_3");
    assert!(c419_4(), "c419_4");
    assert!(c420_0(), "c420_0");
    assert!(c420_1(), "c420_1");
    assert!(c420_2(), "c420_2");
    assert!(c420_3(), "c420_3");
    assert!(c420_4(), "c420_4");
    assert!(c421_0(), "c421_0");
    assert!(c421_1(), "c421_1");
    assert!(c421_2(), "c421_2");
    assert!(c421_3(), "c421_3");
    assert!(c421_4(), "c421_4");
    assert!(c422_0(), "c422_0");
    assert!(c422_1(), "c422_1");
    assert!(c422_2(), "c422_2");
    assert!(c422_3(), "c422_3");
    assert!(c422_4(), "c422_4");
    assert!(c423_0(), "c423_0");
    assert!(c423_1(), "c423_1");
    assert!(c423_2(), "c423_2");
    assert!(c423_3(), "c423_3");
    assert!(c423_4(), "c423_4");
    assert!(c424_0(), "c424_0");
    assert!(c424_1(), "c424_1");
    assert!(c424_2(), "c424_2");
    assert!(c424_3(), "c424_3");
    assert!(c424_4(), "c424_4");
    assert!(c425_0(), "c425_0");
    assert!(c425_1(), "c425_1");
    assert!(c425_2(), "c425_2");
    assert!(c425_3(), "c425_3");
    assert!(c425_4(), "c425_4");
    assert!(c426_0(), "c426_0");
    assert!(c426_1(), "c426_1");
    assert!(c426_2(), "c426_2");
    assert!(c426_3(), "c426_3");
    assert!(c426_4(), "c426_4");
    assert!(c427_0(), "c427_0");
    assert!(c427_1(), "c427_1");
    assert!(c427_2(), "c427_2");
    assert!(c427_3(), "c427_3");
    assert!(c427_4(), "c427_4");
    assert!(c428_0(), "c428_0");
    assert!(c428_1(), "c428_1");
    assert!(c428_2(), "c428_2");
    assert!(c428_3(), "c428_3");
    assert!(c428_4(), "c428_4");
    assert!(c429_0(), "c429_0");
    assert!(c429_1(), "c429_1");
    assert!(c429_2(), "c429_2");
    assert!(c429_3(), "c429_3");
    assert!(c429_4(), "c429_4");
    assert!(c430_0(), "c430_0");
    assert!(c430_1(), "c430_1");
    assert!(c430_2(), "c430_2");
    assert!(c430_3(), "c430_3");
    assert!(c430_4(), "c430_4");
    assert!(c431_0(), "c431_0");
    assert!(c431_1(), "c431_1");
    assert!(c431_2(), "c431_2");
    assert!(c431_3(), "c431_3");
    assert!(c431_4(), "c431_4");
    assert!(c432_0(), "c432_0");
    assert!(c432_1(), "c432_1");
    assert!(c432_2(), "c432_2");
    assert!(c432_3(), "c432_3");
    assert!(c432_4(), "c432_4");
    assert!(c433_0(), "c433_0");
    assert!(c433_1(), "c433_1");
    assert!(c433_2(), "c433_2");
    assert!(c433_3(), "c433_3");
    assert!(c433_4(), "c433_4");
    assert!(c434_0(), "c434_0");
    assert!(c434_1(), "c434_1");
    assert!(c434_2(), "c434_2");
    assert!(c434_3(), "c434_3");
    assert!(c434_4(), "c434_4");
    assert!(c435_0(), "c435_0");
    assert!(c435_1(), "c435_1");
    assert!(c435_2(), "c435_2");
    assert!(c435_3(), "c435_3");
    assert!(c435_4(), "c435_4");
    assert!(c436_0(), "c436_0");
    assert!(c436_1(), "c436_1");
    assert!(c436_2(), "c436_2");
    assert!(c436_3(), "c436_3");
    assert!(c436_4(), "c436_4");
    assert!(c437_0(), "c437_0");
    assert!(c437_1(), "c437_1");
    assert!(c437_2(), "c437_2");
    assert!(c437_3(), "c437_3");
    assert!(c437_4(), "c437_4");
    assert!(c438_0(), "c438_0");
    assert!(c438_1(), "c438_1");
    assert!(c438_2(), "c438_2");
    assert!(c438_3(), "c438_3");
    assert!(c438_4(), "c438_4");
    assert!(c439_0(), "c439_0");
    assert!(c439_1(), "c439_1");
    assert!(c439_2(), "c439_2");
    assert!(c439_3(), "c439_3");
    assert!(c439_4(), "c439_4");
    assert!(c440_0(), "c440_0");
    assert!(c440_1(), "c440_1");
    assert!(c440_2(), "c440_2");
    assert!(c440_3(), "c440_3");
    assert!(c440_4(), "c440_4");
    assert!(c441_0(), "c441_0");
    assert!(c441_1(), "c441_1");
    assert!(c441_2(), "c441_2");
    assert!(c441_3(), "c441_3");
    assert!(c441_4(), "c441_4");
    assert!(c442_0(), "c442_0");
    assert!(s442_0(0, 0, 0), "s442_0");
    assert!(c442_1(), "c442_1");
    assert!(s442_1(0, 0, 1), "s442_1");
    assert!(c442_2(), "c442_2");
    assert!(s442_2(0, 0, 2), "s442_2");
    assert!(c442_3(), "c442_3");
    assert!(s442_3(0, 0, 3), "s442_3");
    assert!(c442_4(), "c442_4");
    assert!(s442_4(0, 0, 7), "s442_4");
    assert!(c442_5(), "c442_5");
    assert!(s442_5(0, 1, 0), "s442_5");
    assert!(c442_6(), "c442_6");
    assert!(s442_6(0, 1, 1), "s442_6");
    assert!(c442_7(), "c442_7");
    assert!(s442_7(0, 1, 2), "s442_7");
    assert!(c442_8(), "c442_8");
    assert!(s442_8(0, 1, 3), "s442_8");
    assert!(c442_9(), "c442_9");
    assert!(s442_9(0, 1, 7), "s442_9");
    assert!(c442_10(), "c442_10");
    assert!(s442_10(0, 2, 0), "s442_10");
    assert!(c442_11(), "c442_11");
    assert!(s442_11(0, 2, 1), "s442_11");
    assert!(c442_12(), "c442_12");
    assert!(s442_12(0, 2, 2), "s442_12");
    assert!(c442_13(), "c442_13");
    assert!(s442_13(0, 2, 3), "s442_13");
    assert!(c442_14(), "c442_14");
    assert!(s442_14(0, 2, 7), "s442_14");
    assert!(c442_15(), "c442_15");
    assert!(s442_15(0, 3, 0), "s442_15");
    assert!(c442_16(), "c442_16");
    assert!(s442_16(0, 3, 1), "s442_16");
    assert!(c442_17(), "c442_17");
    assert!(s442_17(0, 3, 2), "s442_17");
    assert!(c442_18(), "c442_18");
    assert!(s442_18(0, 3, 3), "s442_18");
    assert!(c442_19(), "c442_19");
    assert!(s442_19(0, 3, 7), "s442_19");
    assert!(c442_20(), "c442_20");
    assert!(s442_20(0, 7, 0), "s442_20");
    assert!(c442_21(), "c442_21");
    assert!(s442_21(0, 7, 1), "s442_21");
    assert!(c442_22(), "c442_22");
    assert!(s442_22(0, 7, 2), "s442_22");
    assert!(c442_23(), "c442_23");
    assert!(s442_23(0, 7, 3), "s442_23");
    assert!(c442_24(), "c442_24");
    assert!(s442_24(0, 7, 7), "s442_24");
    assert!(c442_25(), "c442_25");
    assert!(s442_25(1, 0, 0), "s442_25");
    assert!(c442_26(), "c442_26");
    assert!(s442_26(1, 0, 1), "s442_26");
    assert!(c442_27(), "c442_27");
    assert!(s442_27(1, 0, 2), "s442_27");
    assert!(c442_28(), "c442_28");
    assert!(s442_28(1, 0, 3), "s442_28");
    assert!(c442_29(), "c442_29");
    assert!(s442_29(1, 0, 7), "s442_29");
    assert!(c442_30(), "c442_30");
    assert!(s442_30(1, 1, 0), "s442_30");
    assert!(c442_31(), "c442_31");
    assert!(s442_31(1, 1, 1), "s442_31");
    assert!(c442_32(), "c442_32");
    assert!(s442_32(1, 1, 2), "s442_32");
    assert!(c442_33(), "c442_33");
    assert!(s442_33(1, 1, 3), "s442_33");
    assert!(c442_34(), "c442_34");
    assert!(s442_34(1, 1, 7), "s442_34");
    assert!(c442_35(), "c442_35");
    assert!(s442_35(1, 2, 0), "s442_35");
    assert!(c442_36(), "c442_36");
    assert!(s442_36(1, 2, 1), "s442_36");
    assert!(c442_37(), "c442_37");
    assert!(s442_37(1, 2, 2), "s442_37");
    assert!(c442_38(), "c442_38");
    assert!(s442_38(1, 2, 3), "s442_38");
    assert!(c442_39(), "c442_39");
    assert!(s442_39(1, 2, 7), "s442_39");
    assert!(c442_40(), "c442_40");
    assert!(s442_40(1, 3, 0), "s442_40");
    assert!(c442_41(), "c442_41");
    assert!(s442_41(1, 3, 1), "s442_41");
    assert!(c442_42(), "c442_42");
    assert!(s442_42(1, 3, 2), "s442_42");
    assert!(c442_43(), "c442_43");
    assert!(s442_43(1, 3, 3), "s442_43");
    assert!(c442_44(), "c442_44");
    assert!(s442_44(1, 3, 7), "s442_44");
    assert!(c442_45(), "c442_45");
    assert!(s442_45(1, 7, 0), "s442_45");
    assert!(c442_46(), "c442_46");
    assert!(s442_46(1, 7, 1), "s442_46");
    assert!(c442_47(), "c442_47");
    assert!(s442_47(1, 7, 2), "s442_47");
    assert!(c442_48(), "c442_48");
    assert!(s442_48(1, 7, 3), "s442_48");
    assert!(c442_49(), "c442_49");
    assert!(s442_49(1, 7, 7), "s442_49");
    assert!(c442_50(), "c442_50");
    assert!(s442_50(2, 0, 0), "s442_50");
    assert!(c442_51(), "c442_51");
    assert!(s442_51(2, 0, 1), "s442_51");
    assert!(c442_52(), "c442_52");
    assert!(s442_52(2, 0, 2), "s442_52");
    assert!(c442_53(), "c442_53");
    assert!(s442_53(2, 0, 3), "s442_53");
    assert!(c442_54(), "c442_54");
    assert!(s442_54(2, 0, 7), "s442_54");
    assert!(c442_55(), "c442_55");
    assert!(s442_55(2, 1, 0), "s442_55");
    assert!(c442_56(), "c442_56");
    assert!(s442_56(2, 1, 1), "s442_56");
    assert!(c442_57(), "c442_57");
    assert!(s442_57(2, 1, 2), "s442_57");
    assert!(c442_58(), "c442_58");
    assert!(s442_58(2, 1, 3), "s442_58");
    assert!(c442_59(), "c442_59");
    assert!(s442_59(2, 1, 7), "s442_59");
    assert!(c442_60(), "c442_60");
    assert!(s442_60(2, 2, 0), "s442_60");
    assert!(c442_61(), "c442_61");
    assert!(s442_61(2, 2, 1), "s442_61");
    assert!(c442_62(), "c442_62");
    assert!(s442_62(2, 2, 2), "s442_62");
    assert!(c442_63(), "c442_63");
    assert!(s442_63(2, 2, 3), "s442_63");
    assert!(c442_64(), "c442_64");
    assert!(s442_64(2, 2, 7), "s442_64");
    assert!(c442_65(), "c442_65");
    assert!(s442_65(2, 3, 0), "s442_65");
    assert!(c442_66(), "c442_66");
    assert!(s442_66(2, 3, 1), "s442_66");
    assert!(c442_67(), "c442_67");
    assert!(s442_67(2, 3, 2), "s442_67");
    assert!(c442_68(), "c442_68");
    assert!(s442_68(2, 3, 3), "s442_68");
    assert!(c442_69(), "c442_69");
    assert!(s442_69(2, 3, 7), "s442_69");
    assert!(c442_70(), "c442_70");
    assert!(s442_70(2, 7, 0), "s442_70");
    assert!(c442_71(), "c442_71");
    assert!(s442_71(2, 7, 1), "s442_71");
    assert!(c442_72(), "c442_72");
    assert!(s442_72(2, 7, 2), "s442_72");
    assert!(c442_73(), "c442_73");
    assert!(s442_73(2, 7, 3), "s442_73");
    assert!(c442_74(), "c442_74");
    assert!(s442_74(2, 7, 7), "s442_74");
    assert!(c442_75(), "c442_75");
    assert!(s442_75(3, 0, 0), "s442_75");
    assert!(c442_76(), "c442_76");
    assert!(s442_76(3, 0, 1), "s442_76");
    assert!(c442_77(), "c442_77");
    assert!(s442_77(3, 0, 2), "s442_77");
    assert!(c442_78(), "c442_78");
    assert!(s442_78(3, 0, 3), "s442_78");
    assert!(c442_79(), "c442_79");
    assert!(s442_79(3, 0, 7), "s442_79");
    assert!(c442_80(), "c442_80");
    assert!(s442_80(3, 1, 0), "s442_80");
    assert!(c442_81(), "c442_81");
    assert!(s442_81(3, 1, 1), "s442_81");
    assert!(c442_82(), "c442_82");
    assert!(s442_82(3, 1, 2), "s442_82");
    assert!(c442_83(), "c442_83");
    assert!(s442_83(3, 1, 3), "s442_83");
    assert!(c442_84(), "c442_84");
    assert!(s442_84(3, 1, 7), "s442_84");
    assert!(c442_85(), "c442_85");
    assert!(s442_85(3, 2, 0), "s442_85");
    assert!(c442_86(), "c442_86");
    assert!(s442_86(3, 2, 1), "s442_86");
    assert!(c442_87(), "c442_87");
    assert!(s442_87(3, 2, 2), "s442_87");
    assert!(c442_88(), "c442_88");
    assert!(s442_88(3, 2, 3), "s442_88");
    assert!(c442_89(), "c442_89");
    assert!(s442_89(3, 2, 7), "s442_89");
    assert!(c442_90(), "c442_90");
    assert!(s442_90(3, 3, 0), "s442_90");
    assert!(c442_91(), "c442_91");
    assert!(s442_91(3, 3, 1), "s442_91");
    assert!(c442_92(), "c442_92");
    assert!(s442_92(3, 3, 2), "s442_92");
    assert!(c442_93(), "c442_93");
    assert!(s442_93(3, 3, 3), "s442_93");
    assert!(c442_94(), "c442_94");
    assert!(s442_94(3, 3, 7), "s442_94");
    assert!(c442_95(), "c442_95");
    assert!(s442_95(3, 7, 0), "s442_95");
    assert!(c442_96(), "c442_96");
    assert!(s442_96(3, 7, 1), "s442_96");
    assert!(c442_97(), "c442_97");
    assert!(s442_97(3, 7, 2), "s442_97");
    assert!(c442_98(), "c442_98");
    assert!(s442_98(3, 7, 3), "s442_98");
    assert!(c442_99(), "c442_99");
    assert!(s442_99(3, 7, 7), "s442_99");
    assert!(c442_100(), "c442_100");
    assert!(s442_100(7, 0, 0), "s442_100");
    assert!(c442_101(), "c442_101");
    assert!(s442_101(7, 0, 1), "s442_101");
    assert!(c442_102(), "c442_102");
    assert!(s442_102(7, 0, 2), "s442_102");
    assert!(c442_103(), "c442_103");
    assert!(s442_103(7, 0, 3), "s442_103");
    assert!(c442_104(), "c442_104");
    assert!(s442_104(7, 0, 7), "s442_104");
    assert!(c442_105(), "c442_105");
    assert!(s442_105(7, 1, 0), "s442_105");
    assert!(c442_106(), "c442_106");
    assert!(s442_106(7, 1, 1), "s442_106");
    assert!(c442_107(), "c442_107");
    assert!(s442_107(7, 1, 2), "s442_107");
    assert!(c442_108(), "c442_108");
    assert!(s442_108(7, 1, 3), "s442_108");
    assert!(c442_109(), "c442_109");
    assert!(s442_109(7, 1, 7), "s442_109");
    assert!(c442_110(), "c442_110");
    assert!(s442_110(7, 2, 0), "s442_110");
    assert!(c442_111(), "c442_111");
    assert!(s442_111(7, 2, 1), "s442_111");
    assert!(c442_112(), "c442_112");
    assert!(s442_112(7, 2, 2), "s442_112");
    assert!(c442_113(), "c442_113");
    assert!(s442_113(7, 2, 3), "s442_113");
    assert!(c442_114(), "c442_114");
    assert!(s442_114(7, 2, 7), "s442_114");
    assert!(c442_115(), "c442_115");
    assert!(s442_115(7, 3, 0), "s442_115");
    assert!(c442_116(), "c442_116");
    assert!(s442_116(7, 3, 1), "s442_116");
    assert!(c442_117(), "c442_117");
    assert!(s442_117(7, 3, 2), "s442_117");
    assert!(c442_118(), "c442_118");
    assert!(s442_118(7, 3, 3), "s442_118");
    assert!(c442_119(), "c442_119");
    assert!(s442_119(7, 3, 7), "s442_119");
    assert!(c442_120(), "c442_120");
    assert!(s442_120(7, 7, 0), "s442_120");
    assert!(c442_121(), "c442_121");
    assert!(s442_121(7, 7, 1), "s442_121");
    assert!(c442_122(), "c442_122");
    assert!(s442_122(7, 7, 2), "s442_122");
    assert!(c442_123(), "c442_123");
    assert!(s442_123(7, 7, 3), "s442_123");
    assert!(c442_124(), "c442_124");
    assert!(s442_124(7, 7, 7), "s442_124");
    assert!(c443_0(), "c443_0");
    assert!(s443_0(0, 0, 0), "s443_0");
    assert!(c443_1(), "c443_1");
    assert!(s443_1(0, 0, 1), "s443_1");
    assert!(c443_2(), "c443_2");
    assert!(s443_2(0, 0, 2), "s443_2");
    assert!(c443_3(), "c443_3");
    assert!(s443_3(0, 0, 3), "s443_3");
    assert!(c443_4(), "c443_4");
    assert!(s443_4(0, 0, 7), "s443_4");
    assert!(c443_5(), "c443_5");
    assert!(s443_5(0, 1, 0), "s443_5");
    assert!(c443_6(), "c443_6");
    assert!(s443_6(0, 1, 1), "s443_6");
    assert!(c443_7(), "c443_7");
    assert!(s443_7(0, 1, 2), "s443_7");
    assert!(c443_8(), "c443_8");
    assert!(s443_8(0, 1, 3), "s443_8");
    assert!(c443_9(), "c443_9");
    assert!(s443_9(0, 1, 7), "s443_9");
    assert!(c443_10(), "c443_10");
    assert!(s443_10(0, 2, 0), "s443_10");
    assert!(c443_11(), "c443_11");
    assert!(s443_11(0, 2, 1), "s443_11");
    assert!(c443_12(), "c443_12");
    assert!(s443_12(0, 2, 2), "s443_12");
    assert!(c443_13(), "c443_13");
    assert!(s443_13(0, 2, 3), "s443_13");
    assert!(c443_14(), "c443_14");
    assert!(s443_14(0, 2, 7), "s443_14");
    assert!(c443_15(), "c443_15");
    assert!(s443_15(0, 3, 0), "s443_15");
    assert!(c443_16(), "c443_16");
    assert!(s443_16(0, 3, 1), "s443_16");
    assert!(c443_17(), "c443_17");
    assert!(s443_17(0, 3, 2), "s443_17");
    assert!(c443_18(), "c443_18");
    assert!(s443_18(0, 3, 3), "s443_18");
    assert!(c443_19(), "c443_19");
    assert!(s443_19(0, 3, 7), "s443_19");
    assert!(c443_20(), "c443_20");
    assert!(s443_20(0, 7, 0), "s443_20");
    assert!(c443_21(), "c443_21");
    assert!(s443_21(0, 7, 1), "s443_21");
    assert!(c443_22(), "c443_22");
    assert!(s443_22(0, 7, 2), "s443_22");
    assert!(c443_23(), "c443_23");
    assert!(s443_23(0, 7, 3), "s443_23");
    assert!(c443_24(), "c443_24");
    assert!(s443_24(0, 7, 7), "s443_24");
    assert!(c443_25(), "c443_25");
    assert!(s443_25(1, 0, 0), "s443_25");
    assert!(c443_26(), "c443_26");
    assert!(s443_26(1, 0, 1), "s443_26");
    assert!(c443_27(), "c443_27");
    assert!(s443_27(1, 0, 2), "s443_27");
    assert!(c443_28(), "c443_28");
    assert!(s443_28(1, 0, 3), "s443_28");
    assert!(c443_29(), "c443_29");
    assert!(s443_29(1, 0, 7), "s443_29");
    assert!(c443_30(), "c443_30");
    assert!(s443_30(1, 1, 0), "s443_30");
    assert!(c443_31(), "c443_31");
    assert!(s443_31(1, 1, 1), "s443_31");
    assert!(c443_32(), "c443_32");
    assert!(s443_32(1, 1, 2), "s443_32");
    assert!(c443_33(), "c443_33");
    assert!(s443_33(1, 1, 3), "s443_33");
    assert!(c443_34(), "c443_34");
    assert!(s443_34(1, 1, 7), "s443_34");
    assert!(c443_35(), "c443_35");
    assert!(s443_35(1, 2, 0), "s443_35");
    assert!(c443_36(), "c443_36");
    assert!(s443_36(1, 2, 1), "s443_36");
    assert!(c443_37(), "c443_37");
    assert!(s443_37(1, 2, 2), "s443_37");
    assert!(c443_38(), "c443_38");
    assert!(s443_38(1, 2, 3), "s443_38");
    assert!(c443_39(), "c443_39");
    assert!(s443_39(1, 2, 7), "s443_39");
    assert!(c443_40(), "c443_40");
    assert!(s443_40(1, 3, 0), "s443_40");
    assert!(c443_41(), "c443_41");
    assert!(s443_41(1, 3, 1), "s443_41");
    assert!(c443_42(), "c443_42");
    assert!(s443_42(1, 3, 2), "s443_42");
    assert!(c443_43(), "c443_43");
    assert!(s443_43(1, 3, 3), "s443_43");
    assert!(c443_44(), "c443_44");
    assert!(s443_44(1, 3, 7), "s443_44");
    assert!(c443_45(), "c443_45");
    assert!(s443_45(1, 7, 0), "s443_45");
    assert!(c443_46(), "c443_46");
    assert!(s443_46(1, 7, 1), "s443_46");
    assert!(c443_47(), "c443_47");
    assert!(s443_47(1, 7, 2), "s443_47");
    assert!(c443_48(), "c443_48");
    assert!(s443_48(1, 7, 3), "s443_48");
    assert!(c443_49(), "c443_49");
    assert!(s443_49(1, 7, 7), "s443_49");
    assert!(c443_50(), "c443_50");
    assert!(s443_50(2, 0, 0), "s443_50");
    assert!(c443_51(), "c443_51");
    assert!(s443_51(2, 0, 1), "s443_51");
    assert!(c443_52(), "c443_52");
    assert!(s443_52(2, 0, 2), "s443_52");
    assert!(c443_53(), "c443_53");
    assert!(s443_53(2, 0, 3), "s443_53");
    assert!(c443_54(), "c443_54");
    assert!(s443_54(2, 0, 7), "s443_54");
    assert!(c443_55(), "c443_55");
    assert!(s443_55(2, 1, 0), "s443_55");
    assert!(c443_56(), "c443_56");
    assert!(s443_56(2, 1, 1), "s443_56");
    assert!(c443_57(), "c443_57");
    assert!(s443_57(2, 1, 2), "s443_57");
    assert!(c443_58(), "c443_58");
    assert!(s443_58(2, 1, 3), "s443_58");
    assert!(c443_59(), "c443_59");
    assert!(s443_59(2, 1, 7), "s443_59");
    assert!(c443_60(), "c443_60");
    assert!(s443_60(2, 2, 0), "s443_60");
    assert!(c443_61(), "c443_61");
    assert!(s443_61(2, 2, 1), "s443_61");
    assert!(c443_62(), "c443_62");
    assert!(s443_62(2, 2, 2), "s443_62");
    assert!(c443_63(), "c443_63");
    assert!(s443_63(2, 2, 3), "s443_63");
    assert!(c443_64(), "c443_64");
    assert!(s443_64(2, 2, 7), "s443_64");
    assert!(c443_65(), "c443_65");
    assert!(s443_65(2, 3, 0), "s443_65");
    assert!(c443_66(), "c443_66");
    assert!(s443_66(2, 3, 1), "s443_66");
    assert!(c443_67(), "c443_67");
    assert!(s443_67(2, 3, 2), "s443_67");
    assert!(c443_68(), "c443_68");
    assert!(s443_68(2, 3, 3), "s443_68");
    assert!(c443_69(), "c443_69");
    assert!(s443_69(2, 3, 7), "s443_69");
    assert!(c443_70(), "c443_70");
    assert!(s443_70(2, 7, 0), "s443_70");
    assert!(c443_71(), "c443_71");
    assert!(s443_71(2, 7, 1), "s443_71");
    assert!(c443_72(), "c443_72");
    assert!(s443_72(2, 7, 2), "s443_72");
    assert!(c443_73(), "c443_73");
    assert!(s443_73(2, 7, 3), "s443_73");
    assert!(c443_74(), "c443_74");
    assert!(s443_74(2, 7, 7), "s443_74");
    assert!(c443_75(), "c443_75");
    assert!(s443_75(3, 0, 0), "s443_75");
    assert!(c443_76(), "c443_76");
    assert!(s443_76(3, 0, 1), "s443_76");
    assert!(c443_77(), "c443_77");
    assert!(s443_77(3, 0, 2), "s443_77");
    assert!(c443_78(), "c443_78");
    assert!(s443_78(3, 0, 3), "s443_78");
    assert!(c443_79(), "c443_79");
    assert!(s443_79(3, 0, 7), "s443_79");
    assert!(c443_80(), "c443_80");
    assert!(s443_80(3, 1, 0), "s443_80");
    assert!(c443_81(), "c443_81");
    assert!(s443_81(3, 1, 1), "s443_81");
    assert!(c443_82(), "c443_82");
    assert!(s443_82(3, 1, 2), "s443_82");
    assert!(c443_83(), "c443_83");
    assert!(s443_83(3, 1, 3), "s443_83");
    assert!(c443_84(), "c443_84");
    assert!(s443_84(3, 1, 7), "s443_84");
    assert!(c443_85(), "c443_85");
    assert!(s443_85(3, 2, 0), "s443_85");
    assert!(c443_86(), "c443_86");
    assert!(s443_86(3, 2, 1), "s443_86");
    assert!(c443_87(), "c443_87");
    assert!(s443_87(3, 2, 2), "s443_87");
    assert!(c443_88(), "c443_88");
    assert!(s443_88(3, 2, 3), "s443_88");
    assert!(c443_89(), "c443_89");
    assert!(s443_89(3, 2, 7), "s443_89");
    assert!(c443_90(), "c443_90");
    assert!(s443_90(3, 3, 0), "s443_90");
    assert!(c443_91(), "c443_91");
    assert!(s443_91(3, 3, 1), "s443_91");
    assert!(c443_92(), "c443_92");
    assert!(s443_92(3, 3, 2), "s443_92");
    assert!(c443_93(), "c443_93");
    assert!(s443_93(3, 3, 3), "s443_93");
    assert!(c443_94(), "c443_94");
    assert!(s443_94(3, 3, 7), "s443_94");
    assert!(c443_95(), "c443_95");
    assert!(s443_95(3, 7, 0), "s443_95");
    assert!(c443_96(), "c443_96");
    assert!(s443_96(3, 7, 1), "s443_96");
    assert!(c443_97(), "c443_97");
    assert!(s443_97(3, 7, 2), "s443_97");
    assert!(c443_98(), "c443_98");
    assert!(s443_98(3, 7, 3), "s443_98");
    assert!(c443_99(), "c443_99");
    assert!(s443_99(3, 7, 7), "s443_99");
    assert!(c443_100(), "c443_100");
    assert!(s443_100(7, 0, 0), "s443_100");
    assert!(c443_101(), "c443_101");
    assert!(s443_101(7, 0, 1), "s443_101");
    assert!(c443_102(), "c443_102");
    assert!(s443_102(7, 0, 2), "s443_102");
    assert!(c443_103(), "c443_103");
    assert!(s443_103(7, 0, 3), "s443_103");
    assert!(c443_104(), "c443_104");
    assert!(s443_104(7, 0, 7), "s443_104");
    assert!(c443_105(), "c443_105");
    assert!(s443_105(7, 1, 0), "s443_105");
    assert!(c443_106(), "c443_106");
    assert!(s443_106(7, 1, 1), "s443_106");
    assert!(c443_107(), "c443_107");
    assert!(s443_107(7, 1, 2), "s443_107");
    assert!(c443_108(), "c443_108");
    assert!(s443_108(7, 1, 3), "s443_108");
    assert!(c443_109(), "c443_109");
    assert!(s443_109(7, 1, 7), "s443_109");
    assert!(c443_110(), "c443_110");
    assert!(s443_110(7, 2, 0), "s443_110");
    assert!(c443_111(), "c443_111");
    assert!(s443_111(7, 2, 1), "s443_111");
    assert!(c443_112(), "c443_112");
    assert!(s443_112(7, 2, 2), "s443_112");
    assert!(c443_113(), "c443_113");
    assert!(s443_113(7, 2, 3), "s443_113");
    assert!(c443_114(), "c443_114");
    assert!(s443_114(7, 2, 7), "s443_114");
    assert!(c443_115(), "c443_115");
    assert!(s443_115(7, 3, 0), "s443_115");
    assert!(c443_116(), "c443_116");
    assert!(s443_116(7, 3, 1), "s443_116");
    assert!(c443_117(), "c443_117");
    assert!(s443_117(7, 3, 2), "s443_117");
    assert!(c443_118(), "c443_118");
    assert!(s443_118(7, 3, 3), "s443_118");
    assert!(c443_119(), "c443_119");
    assert!(s443_119(7, 3, 7), "s443_119");
    assert!(c443_120(), "c443_120");
    assert!(s443_120(7, 7, 0), "s443_120");
    assert!(c443_121(), "c443_121");
    assert!(s443_121(7, 7, 1), "s443_121");
    assert!(c443_122(), "c443_122");
    assert!(s443_122(7, 7, 2), "s443_122");
    assert!(c443_123(), "c443_123");
    assert!(s443_123(7, 7, 3), "s443_123");
    assert!(c443_124(), "c443_124");
    assert!(s443_124(7, 7, 7), "s443_124");
    assert!(c444_0(), "c444_0");
    assert!(s444_0(0, 0, 0), "s444_0");
    assert!(c444_1(), "c444_1");
    assert!(s444_1(0, 0, 1), "s444_1");
    assert!(c444_2(), "c444_2");
    assert!(s444_2(0, 0, 2), "s444_2");
    assert!(c444_3(), "c444_3");
    assert!(s444_3(0, 0, 3), "s444_3");
    assert!(c444_4(), "c444_4");
    assert!(s444_4(0, 0, 7), "s444_4");
    assert!(c444_5(), "c444_5");
    assert!(s444_5(0, 1, 0), "s444_5");
    assert!(c444_6(), "c444_6");
    assert!(s444_6(0, 1, 1), "s444_6");
    assert!(c444_7(), "c444_7");
    assert!(s444_7(0, 1, 2), "s444_7");
    assert!(c444_8(), "c444_8");
    assert!(s444_8(0, 1, 3), "s444_8");
    assert!(c444_9(), "c444_9");
    assert!(s444_9(0, 1, 7), "s444_9");
    assert!(c444_10(), "c444_10");
    assert!(s444_10(0, 2, 0), "s444_10");
    assert!(c444_11(), "c444_11");
    assert!(s444_11(0, 2, 1), "s444_11");
    assert!(c444_12(), "c444_12");
    assert!(s444_12(0, 2, 2), "s444_12");
    assert!(c444_13(), "c444_13");
    assert!(s444_13(0, 2, 3), "s444_13");
    assert!(c444_14(), "c444_14");
    assert!(s444_14(0, 2, 7), "s444_14");
    assert!(c444_15(), "c444_15");
    assert!(s444_15(0, 3, 0), "s444_15");
    assert!(c444_16(), "c444_16");
    assert!(s444_16(0, 3, 1), "s444_16");
    assert!(c444_17(), "c444_17");
    assert!(s444_17(0, 3, 2), "s444_17");
    assert!(c444_18(), "c444_18");
    assert!(s444_18(0, 3, 3), "s444_18");
    assert!(c444_19(), "c444_19");
    assert!(s444_19(0, 3, 7), "s444_19");
    assert!(c444_20(), "c444_20");
    assert!(s444_20(0, 7, 0), "s444_20");
    assert!(c444_21(), "c444_21");
    assert!(s444_21(0, 7, 1), "s444_21");
    assert!(c444_22(), "c444_22");
    assert!(s444_22(0, 7, 2), "s444_22");
    assert!(c444_23(), "c444_23");
    assert!(s444_23(0, 7, 3), "s444_23");
    assert!(c444_24(), "c444_24");
    assert!(s444_24(0, 7, 7), "s444_24");
    assert!(c444_25(), "c444_25");
    assert!(s444_25(1, 0, 0), "s444_25");
    assert!(c444_26(), "c444_26");
    assert!(s444_26(1, 0, 1), "s444_26");
    assert!(c444_27(), "c444_27");
    assert!(s444_27(1, 0, 2), "s444_27");
    assert!(c444_28(), "c444_28");
    assert!(s444_28(1, 0, 3), "s444_28");
    assert!(c444_29(), "c444_29");
    assert!(s444_29(1, 0, 7), "s444_29");
    assert!(c444_30(), "c444_30");
    assert!(s444_30(1, 1, 0), "s444_30");
    assert!(c444_31(), "c444_31");
    assert!(s444_31(1, 1, 1), "s444_31");
    assert!(c444_32(), "c444_32");
    assert!(s444_32(1, 1, 2), "s444_32");
    assert!(c444_33(), "c444_33");
    assert!(s444_33(1, 1, 3), "s444_33");
    assert!(c444_34(), "c444_34");
    assert!(s444_34(1, 1, 7), "s444_34");
    assert!(c444_35(), "c444_35");
    assert!(s444_35(1, 2, 0), "s444_35");
    assert!(c444_36(), "c444_36");
    assert!(s444_36(1, 2, 1), "s444_36");
    assert!(c444_37(), "c444_37");
    assert!(s444_37(1, 2, 2), "s444_37");
    assert!(c444_38(), "c444_38");
    assert!(s444_38(1, 2, 3), "s444_38");
    assert!(c444_39(), "c444_39");
    assert!(s444_39(1, 2, 7), "s444_39");
    assert!(c444_40(), "c444_40");
    assert!(s444_40(1, 3, 0), "s444_40");
    assert!(c444_41(), "c444_41");
    assert!(s444_41(1, 3, 1), "s444_41");
    assert!(c444_42(), "c444_42");
    assert!(s444_42(1, 3, 2), "s444_42");
    assert!(c444_43(), "c444_43");
    assert!(s444_43(1, 3, 3), "s444_43");
    assert!(c444_44(), "c444_44");
    assert!(s444_44(1, 3, 7), "s444_44");
    assert!(c444_45(), "c444_45");
    assert!(s444_45(1, 7, 0), "s444_45");
    assert!(c444_46(), "c444_46");
    assert!(s444_46(1, 7, 1), "s444_46");
    assert!(c444_47(), "c444_47");
    assert!(s444_47(1, 7, 2), "s444_47");
    assert!(c444_48(), "c444_48");
    assert!(s444_48(1, 7, 3), "s444_48");
    assert!(c444_49(), "c444_49");
    assert!(s444_49(1, 7, 7), "s444_49");
    assert!(c444_50(), "c444_50");
    assert!(s444_50(2, 0, 0), "s444_50");
    assert!(c444_51(), "c444_51");
    assert!(s444_51(2, 0, 1), "s444_51");
    assert!(c444_52(), "c444_52");
    assert!(s444_52(2, 0, 2), "s444_52");
    assert!(c444_53(), "c444_53");
    assert!(s444_53(2, 0, 3), "s444_53");
    assert!(c444_54(), "c444_54");
    assert!(s444_54(2, 0, 7), "s444_54");
    assert!(c444_55(), "c444_55");
    assert!(s444_55(2, 1, 0), "s444_55");
    assert!(c444_56(), "c444_56");
    assert!(s444_56(2, 1, 1), "s444_56");
    assert!(c444_57(), "c444_57");
    assert!(s444_57(2, 1, 2), "s444_57");
    assert!(c444_58(), "c444_58");
    assert!(s444_58(2, 1, 3), "s444_58");
    assert!(c444_59(), "c444_59");
    assert!(s444_59(2, 1, 7), "s444_59");
    assert!(c444_60(), "c444_60");
    assert!(s444_60(2, 2, 0), "s444_60");
    assert!(c444_61(), "c444_61");
    assert!(s444_61(2, 2, 1), "s444_61");
    assert!(c444_62(), "c444_62");
    assert!(s444_62(2, 2, 2), "s444_62");
    assert!(c444_63(), "c444_63");
    assert!(s444_63(2, 2, 3), "s444_63");
    assert!(c444_64(), "c444_64");
    assert!(s444_64(2, 2, 7), "s444_64");
    assert!(c444_65(), "c444_65");
    assert!(s444_65(2, 3, 0), "s444_65");
    assert!(c444_66(), "c444_66");
    assert!(s444_66(2, 3, 1), "s444_66");
    assert!(c444_67(), "c444_67");
    assert!(s444_67(2, 3, 2), "s444_67");
    assert!(c444_68(), "c444_68");
    assert!(s444_68(2, 3, 3), "s444_68");
    assert!(c444_69(), "c444_69");
    assert!(s444_69(2, 3, 7), "s444_69");
    assert!(c444_70(), "c444_70");
    assert!(s444_70(2, 7, 0), "s444_70");
    assert!(c444_71(), "c444_71");
    assert!(s444_71(2, 7, 1), "s444_71");
    assert!(c444_72(), "c444_72");
    assert!(s444_72(2, 7, 2), "s444_72");
    assert!(c444_73(), "c444_73");
    assert!(s444_73(2, 7, 3), "s444_73");
    assert!(c444_74(), "c444_74");
    assert!(s444_74(2, 7, 7), "s444_74");
    assert!(c444_75(), "c444_75");
    assert!(s444_75(3, 0, 0), "s444_75");
    assert!(c444_76(), "c444_76");
    assert!(s444_76(3, 0, 1), "s444_76");
    assert!(c444_77(), "c444_77");
    assert!(s444_77(3, 0, 2), "s444_77");
    assert!(c444_78(), "c444_78");
    assert!(s444_78(3, 0, 3), "s444_78");
    assert!(c444_79(), "c444_79");
    assert!(s444_79(3, 0, 7), "s444_79");
    assert!(c444_80(), "c444_80");
    assert!(s444_80(3, 1, 0), "s444_80");
    assert!(c444_81(), "c444_81");
    assert!(s444_81(3, 1, 1), "s444_81");
    assert!(c444_82(), "c444_82");
    assert!(s444_82(3, 1, 2), "s444_82");
    assert!(c444_83(), "c444_83");
    assert!(s444_83(3, 1, 3), "s444_83");
    assert!(c444_84(), "c444_84");
    assert!(s444_84(3, 1, 7), "s444_84");
    assert!(c444_85(), "c444_85");
    assert!(s444_85(3, 2, 0), "s444_85");
    assert!(c444_86(), "c444_86");
    assert!(s444_86(3, 2, 1), "s444_86");
    assert!(c444_87(), "c444_87");
    assert!(s444_87(3, 2, 2), "s444_87");
    assert!(c444_88(), "c444_88");
    assert!(s444_88(3, 2, 3), "s444_88");
    assert!(c444_89(), "c444_89");
    assert!(s444_89(3, 2, 7), "s444_89");
    assert!(c444_90(), "c444_90");
    assert!(s444_90(3, 3, 0), "s444_90");
    assert!(c444_91(), "c444_91");
    assert!(s444_91(3, 3, 1), "s444_91");
    assert!(c444_92(), "c444_92");
    assert!(s444_92(3, 3, 2), "s444_92");
    assert!(c444_93(), "c444_93");
    assert!(s444_93(3, 3, 3), "s444_93");
    assert!(c444_94(), "c444_94");
    assert!(s444_94(3, 3, 7), "s444_94");
    assert!(c444_95(), "c444_95");
    assert!(s444_95(3, 7, 0), "s444_95");
    assert!(c444_96(), "c444_96");
    assert!(s444_96(3, 7, 1), "s444_96");
    assert!(c444_97(), "c444_97");
    assert!(s444_97(3, 7, 2), "s444_97");
    assert!(c444_98(), "c444_98");
    assert!(s444_98(3, 7, 3), "s444_98");
    assert!(c444_99(), "c444_99");
    assert!(s444_99(3, 7, 7), "s444_99");
    assert!(c444_100(), "c444_100");
    assert!(s444_100(7, 0, 0), "s444_100");
    assert!(c444_101(), "c444_101");
    assert!(s444_101(7, 0, 1), "s444_101");
    assert!(c444_102(), "c444_102");
    assert!(s444_102(7, 0, 2), "s444_102");
    assert!(c444_103(), "c444_103");
    assert!(s444_103(7, 0, 3), "s444_103");
    assert!(c444_104(), "c444_104");
    assert!(s444_104(7, 0, 7), "s444_104");
    assert!(c444_105(), "c444_105");
    assert!(s444_105(7, 1, 0), "s444_105");
    assert!(c444_106(), "c444_106");
    assert!(s444_106(7, 1, 1), "s444_106");
    assert!(c444_107(), "c444_107");
    assert!(s444_107(7, 1, 2), "s444_107");
    assert!(c444_108(), "c444_108");
    assert!(s444_108(7, 1, 3), "s444_108");
    assert!(c444_109(), "c444_109");
    assert!(s444_109(7, 1, 7), "s444_109");
    assert!(c444_110(), "c444_110");
    assert!(s444_110(7, 2, 0), "s444_110");
    assert!(c444_111(), "c444_111");
    assert!(s444_111(7, 2, 1), "s444_111");
    assert!(c444_112(), "c444_112");
    assert!(s444_112(7, 2, 2), "s444_112");
    assert!(c444_113(), "c444_113");
    assert!(s444_113(7, 2, 3), "s444_113");
    assert!(c444_114(), "c444_114");
    assert!(s444_114(7, 2, 7), "s444_114");
    assert!(c444_115(), "c444_115");
    assert!(s444_115(7, 3, 0), "s444_115");
    assert!(c444_116(), "c444_116");
    assert!(s444_116(7, 3, 1), "s444_116");
    assert!(c444_117(), "c444_117");
    assert!(s444_117(7, 3, 2), "s444_117");
    assert!(c444_118(), "c444_118");
    assert!(s444_118(7, 3, 3), "s444_118");
    assert!(c444_119(), "c444_119");
    assert!(s444_119(7, 3, 7), "s444_119");
    assert!(c444_120(), "c444_120");
    assert!(s444_120(7, 7, 0), "s444_120");
    assert!(c444_121(), "c444_121");
    assert!(s444_121(7, 7, 1), "s444_121");
    assert!(c444_122(), "c444_122");
    assert!(s444_122(7, 7, 2), "s444_122");
    assert!(c444_123(), "c444_123");
    assert!(s444_123(7, 7, 3), "s444_123");
    assert!(c444_124(), "c444_124");
    assert!(s444_124(7, 7, 7), "s444_124");
    assert!(c445_0(), "c445_0");
    assert!(s445_0(0, 0, 0), "s445_0");
    assert!(c445_1(), "c445_1");
    assert!(s445_1(0, 0, 1), "s445_1");
    assert!(c445_2(), "c445_2");
    assert!(s445_2(0, 0, 2), "s445_2");
    assert!(c445_3(), "c445_3");
    assert!(s445_3(0, 0, 3), "s445_3");
    assert!(c445_4(), "c445_4");
    assert!(s445_4(0, 0, 7), "s445_4");
    assert!(c445_5(), "c445_5");
    assert!(s445_5(0, 1, 0), "s445_5");
    assert!(c445_6(), "c445_6");
    assert!(s445_6(0, 1, 1), "s445_6");
    assert!(c445_7(), "c445_7");
    assert!(s445_7(0, 1, 2), "s445_7");
    assert!(c445_8(), "c445_8");
    assert!(s445_8(0, 1, 3), "s445_8");
    assert!(c445_9(), "c445_9");
    assert!(s445_9(0, 1, 7), "s445_9");
    assert!(c445_10(), "c445_10");
    assert!(s445_10(0, 2, 0), "s445_10");
    assert!(c445_11(), "c445_11");
    assert!(s445_11(0, 2, 1), "s445_11");
    assert!(c445_12(), "c445_12");
    assert!(s445_12(0, 2, 2), "s445_12");
    assert!(c445_13(), "c445_13");
    assert!(s445_13(0, 2, 3), "s445_13");
    assert!(c445_14(), "c445_14");
    assert!(s445_14(0, 2, 7), "s445_14");
    assert!(c445_15(), "c445_15");
    assert!(s445_15(0, 3, 0), "s445_15");
    assert!(c445_16(), "c445_16");
    assert!(s445_16(0, 3, 1), "s445_16");
    assert!(c445_17(), "c445_17");
    assert!(s445_17(0, 3, 2), "s445_17");
    assert!(c445_18(), "c445_18");
    assert!(s445_18(0, 3, 3), "s445_18");
    assert!(c445_19(), "c445_19");
    assert!(s445_19(0, 3, 7), "s445_19");
    assert!(c445_20(), "c445_20");
    assert!(s445_20(0, 7, 0), "s445_20");
    assert!(c445_21(), "c445_21");
    assert!(s445_21(0, 7, 1), "s445_21");
    assert!(c445_22(), "c445_22");
    assert!(s445_22(0, 7, 2), "s445_22");
    assert!(c445_23(), "c445_23");
    assert!(s445_23(0, 7, 3), "s445_23");
    assert!(c445_24(), "c445_24");
    assert!(s445_24(0, 7, 7), "s445_24");
    assert!(c445_25(), "c445_25");
    assert!(s445_25(1, 0, 0), "s445_25");
    assert!(c445_26(), "c445_26");
    assert!(s445_26(1, 0, 1), "s445_26");
    assert!(c445_27(), "c445_27");
    assert!(s445_27(1, 0, 2), "s445_27");
    assert!(c445_28(), "c445_28");
    assert!(s445_28(1, 0, 3), "s445_28");
    assert!(c445_29(), "c445_29");
    assert!(s445_29(1, 0, 7), "s445_29");
    assert!(c445_30(), "c445_30");
    assert!(s445_30(1, 1, 0), "s445_30");
    assert!(c445_31(), "c445_31");
    assert!(s445_31(1, 1, 1), "s445_31");
    assert!(c445_32(), "c445_32");
    assert!(s445_32(1, 1, 2), "s445_32");
    assert!(c445_33(), "c445_33");
    assert!(s445_33(1, 1, 3), "s445_33");
    assert!(c445_34(), "c445_34");
    assert!(s445_34(1, 1, 7), "s445_34");
    assert!(c445_35(), "c445_35");
    assert!(s445_35(1, 2, 0), "s445_35");
    assert!(c445_36(), "c445_36");
    assert!(s445_36(1, 2, 1), "s445_36");
    assert!(c445_37(), "c445_37");
    assert!(s445_37(1, 2, 2), "s445_37");
    assert!(c445_38(), "c445_38");
    assert!(s445_38(1, 2, 3), "s445_38");
    assert!(c445_39(), "c445_39");
    assert!(s445_39(1, 2, 7), "s445_39");
    assert!(c445_40(), "c445_40");
    assert!(s445_40(1, 3, 0), "s445_40");
    assert!(c445_41(), "c445_41");
    assert!(s445_41(1, 3, 1), "s445_41");
    assert!(c445_42(), "c445_42");
    assert!(s445_42(1, 3, 2), "s445_42");
    assert!(c445_43(), "c445_43");
    assert!(s445_43(1, 3, 3), "s445_43");
    assert!(c445_44(), "c445_44");
    assert!(s445_44(1, 3, 7), "s445_44");
    assert!(c445_45(), "c445_45");
    assert!(s445_45(1, 7, 0), "s445_45");
    assert!(c445_46(), "c445_46");
    assert!(s445_46(1, 7, 1), "s445_46");
    assert!(c445_47(), "c445_47");
    assert!(s445_47(1, 7, 2), "s445_47");
    assert!(c445_48(), "c445_48");
    assert!(s445_48(1, 7, 3), "s445_48");
    assert!(c445_49(), "c445_49");
    assert!(s445_49(1, 7, 7), "s445_49");
    assert!(c445_50(), "c445_50");
    assert!(s445_50(2, 0, 0), "s445_50");
    assert!(c445_51(), "c445_51");
    assert!(s445_51(2, 0, 1), "s445_51");
    assert!(c445_52(), "c445_52");
    assert!(s445_52(2, 0, 2), "s445_52");
    assert!(c445_53(), "c445_53");
    assert!(s445_53(2, 0, 3), "s445_53");
    assert!(c445_54(), "c445_54");
    assert!(s445_54(2, 0, 7), "s445_54");
    assert!(c445_55(), "c445_55");
    assert!(s445_55(2, 1, 0), "s445_55");
    assert!(c445_56(), "c445_56");
    assert!(s445_56(2, 1, 1), "s445_56");
    assert!(c445_57(), "c445_57");
    assert!(s445_57(2, 1, 2), "s445_57");
    assert!(c445_58(), "c445_58");
    assert!(s445_58(2, 1, 3), "s445_58");
    assert!(c445_59(), "c445_59");
    assert!(s445_59(2, 1, 7), "s445_59");
    assert!(c445_60(), "c445_60");
    assert!(s445_60(2, 2, 0), "s445_60");
    assert!(c445_61(), "c445_61");
    assert!(s445_61(2, 2, 1), "s445_61");
    assert!(c445_62(), "c445_62");
    assert!(s445_62(2, 2, 2), "s445_62");
    assert!(c445_63(), "c445_63");
    assert!(s445_63(2, 2, 3), "s445_63");
    assert!(c445_64(), "c445_64");
    assert!(s445_64(2, 2, 7), "s445_64");
    assert!(c445_65(), "c445_65");
    assert!(s445_65(2, 3, 0), "s445_65");
    assert!(c445_66(), "c445_66");
    assert!(s445_66(2, 3, 1), "s445_66");
    assert!(c445_67(), "c445_67");
    assert!(s445_67(2, 3, 2), "s445_67");
    assert!(c445_68(), "c445_68");
    assert!(s445_68(2, 3, 3), "s445_68");
    assert!(c445_69(), "c445_69");
    assert!(s445_69(2, 3, 7), "s445_69");
    assert!(c445_70(), "c445_70");
    assert!(s445_70(2, 7, 0), "s445_70");
    assert!(c445_71(), "c445_71");
    assert!(s445_71(2, 7, 1), "s445_71");
    assert!(c445_72(), "c445_72");
    assert!(s445_72(2, 7, 2), "s445_72");
    assert!(c445_73(), "c445_73");
    assert!(s445_73(2, 7, 3), "s445_73");
    assert!(c445_74(), "c445_74");
    assert!(s445_74(2, 7, 7), "s445_74");
    assert!(c445_75(), "c445_75");
    assert!(s445_75(3, 0, 0), "s445_75");
    assert!(c445_76(), "c445_76");
    assert!(s445_76(3, 0, 1), "s445_76");
    assert!(c445_77(), "c445_77");
    assert!(s445_77(3, 0, 2), "s445_77");
    assert!(c445_78(), "c445_78");
    assert!(s445_78(3, 0, 3), "s445_78");
    assert!(c445_79(), "c445_79");
    assert!(s445_79(3, 0, 7), "s445_79");
    assert!(c445_80(), "c445_80");
    assert!(s445_80(3, 1, 0), "s445_80");
    assert!(c445_81(), "c445_81");
    assert!(s445_81(3, 1, 1), "s445_81");
    assert!(c445_82(), "c445_82");
    assert!(s445_82(3, 1, 2), "s445_82");
    assert!(c445_83(), "c445_83");
    assert!(s445_83(3, 1, 3), "s445_83");
    assert!(c445_84(), "c445_84");
    assert!(s445_84(3, 1, 7), "s445_84");
    assert!(c445_85(), "c445_85");
    assert!(s445_85(3, 2, 0), "s445_85");
    assert!(c445_86(), "c445_86");
    assert!(s445_86(3, 2, 1), "s445_86");
    assert!(c445_87(), "c445_87");
    assert!(s445_87(3, 2, 2), "s445_87");
    assert!(c445_88(), "c445_88");
    assert!(s445_88(3, 2, 3), "s445_88");
    assert!(c445_89(), "c445_89");
    assert!(s445_89(3, 2, 7), "s445_89");
    assert!(c445_90(), "c445_90");
    assert!(s445_90(3, 3, 0), "s445_90");
    assert!(c445_91(), "c445_91");
    assert!(s445_91(3, 3, 1), "s445_91");
    assert!(c445_92(), "c445_92");
    assert!(s445_92(3, 3, 2), "s445_92");
    assert!(c445_93(), "c445_93");
    assert!(s445_93(3, 3, 3), "s445_93");
    assert!(c445_94(), "c445_94");
    assert!(s445_94(3, 3, 7), "s445_94");
    assert!(c445_95(), "c445_95");
    assert!(s445_95(3, 7, 0), "s445_95");
    assert!(c445_96(), "c445_96");
    assert!(s445_96(3, 7, 1), "s445_96");
    assert!(c445_97(), "c445_97");
    assert!(s445_97(3, 7, 2), "s445_97");
    assert!(c445_98(), "c445_98");
    assert!(s445_98(3, 7, 3), "s445_98");
    assert!(c445_99(), "c445_99");
    assert!(s445_99(3, 7, 7), "s445_99");
    assert!(c445_100(), "c445_100");
    assert!(s445_100(7, 0, 0), "s445_100");
    assert!(c445_101(), "c445_101");
    assert!(s445_101(7, 0, 1), "s445_101");
    assert!(c445_102(), "c445_102");
    assert!(s445_102(7, 0, 2), "s445_102");
    assert!(c445_103(), "c445_103");
    assert!(s445_103(7, 0, 3), "s445_103");
    assert!(c445_104(), "c445_104");
    assert!(s445_104(7, 0, 7), "s445_104");
    assert!(c445_105(), "c445_105");
    assert!(s445_105(7, 1, 0), "s445_105");
    assert!(c445_106(), "c445_106");
    assert!(s445_106(7, 1, 1), "s445_106");
    assert!(c445_107(), "c445_107");
    assert!(s445_107(7, 1, 2), "s445_107");
    assert!(c445_108(), "c445_108");
    assert!(s445_108(7, 1, 3), "s445_108");
    assert!(c445_109(), "c445_109");
    assert!(s445_109(7, 1, 7), "s445_109");
    assert!(c445_110(), "c445_110");
    assert!(s445_110(7, 2, 0), "s445_110");
    assert!(c445_111(), "c445_111");
    assert!(s445_111(7, 2, 1), "s445_111");
    assert!(c445_112(), "c445_112");
    assert!(s445_112(7, 2, 2), "s445_112");
    assert!(c445_113(), "c445_113");
    assert!(s445_113(7, 2, 3), "s445_113");
    assert!(c445_114(), "c445_114");
    assert!(s445_114(7, 2, 7), "s445_114");
    assert!(c445_115(), "c445_115");
    assert!(s445_115(7, 3, 0), "s445_115");
    assert!(c445_116(), "c445_116");
    assert!(s445_116(7, 3, 1), "s445_116");
    assert!(c445_117(), "c445_117");
    assert!(s445_117(7, 3, 2), "s445_117");
    assert!(c445_118(), "c445_118");
    assert!(s445_118(7, 3, 3), "s445_118");
    assert!(c445_119(), "c445_119");
    assert!(s445_119(7, 3, 7), "s445_119");
    assert!(c445_120(), "c445_120");
    assert!(s445_120(7, 7, 0), "s445_120");
    assert!(c445_121(), "c445_121");
    assert!(s445_121(7, 7, 1), "s445_121");
    assert!(c445_122(), "c445_122");
    assert!(s445_122(7, 7, 2), "s445_122");
    assert!(c445_123(), "c445_123");
    assert!(s445_123(7, 7, 3), "s445_123");
    assert!(c445_124(), "c445_124");
    assert!(s445_124(7, 7, 7), "s445_124");
    assert!(c446_0(), "c446_0");
    assert!(s446_0(0, 0, 0), "s446_0");
    assert!(c446_1(), "c446_1");
    assert!(s446_1(0, 0, 1), "s446_1");
    assert!(c446_2(), "c446_2");
    assert!(s446_2(0, 0, 2), "s446_2");
    assert!(c446_3(), "c446_3");
    assert!(s446_3(0, 0, 3), "s446_3");
    assert!(c446_4(), "c446_4");
    assert!(s446_4(0, 0, 7), "s446_4");
    assert!(c446_5(), "c446_5");
    assert!(s446_5(0, 1, 0), "s446_5");
    assert!(c446_6(), "c446_6");
    assert!(s446_6(0, 1, 1), "s446_6");
    assert!(c446_7(), "c446_7");
    assert!(s446_7(0, 1, 2), "s446_7");
    assert!(c446_8(), "c446_8");
    assert!(s446_8(0, 1, 3), "s446_8");
    assert!(c446_9(), "c446_9");
    assert!(s446_9(0, 1, 7), "s446_9");
    assert!(c446_10(), "c446_10");
    assert!(s446_10(0, 2, 0), "s446_10");
    assert!(c446_11(), "c446_11");
    assert!(s446_11(0, 2, 1), "s446_11");
    assert!(c446_12(), "c446_12");
    assert!(s446_12(0, 2, 2), "s446_12");
    assert!(c446_13(), "c446_13");
    assert!(s446_13(0, 2, 3), "s446_13");
    assert!(c446_14(), "c446_14");
    assert!(s446_14(0, 2, 7), "s446_14");
    assert!(c446_15(), "c446_15");
    assert!(s446_15(0, 3, 0), "s446_15");
    assert!(c446_16(), "c446_16");
    assert!(s446_16(0, 3, 1), "s446_16");
    assert!(c446_17(), "c446_17");
    assert!(s446_17(0, 3, 2), "s446_17");
    assert!(c446_18(), "c446_18");
    assert!(s446_18(0, 3, 3), "s446_18");
    assert!(c446_19(), "c446_19");
    assert!(s446_19(0, 3, 7), "s446_19");
    assert!(c446_20(), "c446_20");
    assert!(s446_20(0, 7, 0), "s446_20");
    assert!(c446_21(), "c446_21");
    assert!(s446_21(0, 7, 1), "s446_21");
    assert!(c446_22(), "c446_22");
    assert!(s446_22(0, 7, 2), "s446_22");
    assert!(c446_23(), "c446_23");
    assert!(s446_23(0, 7, 3), "s446_23");
    assert!(c446_24(), "c446_24");
    assert!(s446_24(0, 7, 7), "s446_24");
    assert!(c446_25(), "c446_25");
    assert!(s446_25(1, 0, 0), "s446_25");
    assert!(c446_26(), "c446_26");
    assert!(s446_26(1, 0, 1), "s446_26");
    assert!(c446_27(), "c446_27");
    assert!(s446_27(1, 0, 2), "s446_27");
    assert!(c446_28(), "c446_28");
    assert!(s446_28(1, 0, 3), "s446_28");
    assert!(c446_29(), "c446_29");
    assert!(s446_29(1, 0, 7), "s446_29");
    assert!(c446_30(), "c446_30");
    assert!(s446_30(1, 1, 0), "s446_30");
    assert!(c446_31(), "c446_31");
    assert!(s446_31(1, 1, 1), "s446_31");
    assert!(c446_32(), "c446_32");
    assert!(s446_32(1, 1, 2), "s446_32");
    assert!(c446_33(), "c446_33");
    assert!(s446_33(1, 1, 3), "s446_33");
    assert!(c446_34(), "c446_34");
    assert!(s446_34(1, 1, 7), "s446_34");
    assert!(c446_35(), "c446_35");
    assert!(s446_35(1, 2, 0), "s446_35");
    assert!(c446_36(), "c446_36");
    assert!(s446_36(1, 2, 1), "s446_36");
    assert!(c446_37(), "c446_37");
    assert!(s446_37(1, 2, 2), "s446_37");
    assert!(c446_38(), "c446_38");
    assert!(s446_38(1, 2, 3), "s446_38");
    assert!(c446_39(), "c446_39");
    assert!(s446_39(1, 2, 7), "s446_39");
    assert!(c446_40(), "c446_40");
    assert!(s446_40(1, 3, 0), "s446_40");
    assert!(c446_41(), "c446_41");
    assert!(s446_41(1, 3, 1), "s446_41");
    assert!(c446_42(), "c446_42");
    assert!(s446_42(1, 3, 2), "s446_42");
    assert!(c446_43(), "c446_43");
    assert!(s446_43(1, 3, 3), "s446_43");
    assert!(c446_44(), "c446_44");
    assert!(s446_44(1, 3, 7), "s446_44");
    assert!(c446_45(), "c446_45");
    assert!(s446_45(1, 7, 0), "s446_45");
    assert!(c446_46(), "c446_46");
    assert!(s446_46(1, 7, 1), "s446_46");
    assert!(c446_47(), "c446_47");
    assert!(s446_47(1, 7, 2), "s446_47");
    assert!(c446_48(), "c446_48");
    assert!(s446_48(1, 7, 3), "s446_48");
    assert!(c446_49(), "c446_49");
    assert!(s446_49(1, 7, 7), "s446_49");
    assert!(c446_50(), "c446_50");
    assert!(s446_50(2, 0, 0), "s446_50");
    assert!(c446_51(), "c446_51");
    assert!(s446_51(2, 0, 1), "s446_51");
    assert!(c446_52(), "c446_52");
    assert!(s446_52(2, 0, 2), "s446_52");
    assert!(c446_53(), "c446_53");
    assert!(s446_53(2, 0, 3), "s446_53");
    assert!(c446_54(), "c446_54");
    assert!(s446_54(2, 0, 7), "s446_54");
    assert!(c446_55(), "c446_55");
    assert!(s446_55(2, 1, 0), "s446_55");
    assert!(c446_56(), "c446_56");
    assert!(s446_56(2, 1, 1), "s446_56");
    assert!(c446_57(), "c446_57");
    assert!(s446_57(2, 1, 2), "s446_57");
    assert!(c446_58(), "c446_58");
    assert!(s446_58(2, 1, 3), "s446_58");
    assert!(c446_59(), "c446_59");
    assert!(s446_59(2, 1, 7), "s446_59");
    assert!(c446_60(), "c446_60");
    assert!(s446_60(2, 2, 0), "s446_60");
    assert!(c446_61(), "c446_61");
    assert!(s446_61(2, 2, 1), "s446_61");
    assert!(c446_62(), "c446_62");
    assert!(s446_62(2, 2, 2), "s446_62");
    assert!(c446_63(), "c446_63");
    assert!(s446_63(2, 2, 3), "s446_63");
    assert!(c446_64(), "c446_64");
    assert!(s446_64(2, 2, 7), "s446_64");
    assert!(c446_65(), "c446_65");
    assert!(s446_65(2, 3, 0), "s446_65");
    assert!(c446_66(), "c446_66");
    assert!(s446_66(2, 3, 1), "s446_66");
    assert!(c446_67(), "c446_67");
    assert!(s446_67(2, 3, 2), "s446_67");
    assert!(c446_68(), "c446_68");
    assert!(s446_68(2, 3, 3), "s446_68");
    assert!(c446_69(), "c446_69");
    assert!(s446_69(2, 3, 7), "s446_69");
    assert!(c446_70(), "c446_70");
    assert!(s446_70(2, 7, 0), "s446_70");
    assert!(c446_71(), "c446_71");
    assert!(s446_71(2, 7, 1), "s446_71");
    assert!(c446_72(), "c446_72");
    assert!(s446_72(2, 7, 2), "s446_72");
    assert!(c446_73(), "c446_73");
    assert!(s446_73(2, 7, 3), "s446_73");
    assert!(c446_74(), "c446_74");
    assert!(s446_74(2, 7, 7), "s446_74");
    assert!(c446_75(), "c446_75");
    assert!(s446_75(3, 0, 0), "s446_75");
    assert!(c446_76(), "c446_76");
    assert!(s446_76(3, 0, 1), "s446_76");
    assert!(c446_77(), "c446_77");
    assert!(s446_77(3, 0, 2), "s446_77");
    assert!(c446_78(), "c446_78");
    assert!(s446_78(3, 0, 3), "s446_78");
    assert!(c446_79(), "c446_79");
    assert!(s446_79(3, 0, 7), "s446_79");
    assert!(c446_80(), "c446_80");
    assert!(s446_80(3, 1, 0), "s446_80");
    assert!(c446_81(), "c446_81");
    assert!(s446_81(3, 1, 1), "s446_81");
    assert!(c446_82(), "c446_82");
    assert!(s446_82(3, 1, 2), "s446_82");
    assert!(c446_83(), "c446_83");
    assert!(s446_83(3, 1, 3), "s446_83");
    assert!(c446_84(), "c446_84");
    assert!(s446_84(3, 1, 7), "s446_84");
    assert!(c446_85(), "c446_85");
    assert!(s446_85(3, 2, 0), "s446_85");
    assert!(c446_86(), "c446_86");
    assert!(s446_86(3, 2, 1), "s446_86");
    assert!(c446_87(), "c446_87");
    assert!(s446_87(3, 2, 2), "s446_87");
    assert!(c446_88(), "c446_88");
    assert!(s446_88(3, 2, 3), "s446_88");
    assert!(c446_89(), "c446_89");
    assert!(s446_89(3, 2, 7), "s446_89");
    assert!(c446_90(), "c446_90");
    assert!(s446_90(3, 3, 0), "s446_90");
    assert!(c446_91(), "c446_91");
    assert!(s446_91(3, 3, 1), "s446_91");
    assert!(c446_92(), "c446_92");
    assert!(s446_92(3, 3, 2), "s446_92");
    assert!(c446_93(), "c446_93");
    assert!(s446_93(3, 3, 3), "s446_93");
    assert!(c446_94(), "c446_94");
    assert!(s446_94(3, 3, 7), "s446_94");
    assert!(c446_95(), "c446_95");
    assert!(s446_95(3, 7, 0), "s446_95");
    assert!(c446_96(), "c446_96");
    assert!(s446_96(3, 7, 1), "s446_96");
    assert!(c446_97(), "c446_97");
    assert!(s446_97(3, 7, 2), "s446_97");
    assert!(c446_98(), "c446_98");
    assert!(s446_98(3, 7, 3), "s446_98");
    assert!(c446_99(), "c446_99");
    assert!(s446_99(3, 7, 7), "s446_99");
    assert!(c446_100(), "c446_100");
    assert!(s446_100(7, 0, 0), "s446_100");
    assert!(c446_101(), "c446_101");
    assert!(s446_101(7, 0, 1), "s446_101");
    assert!(c446_102(), "c446_102");
    assert!(s446_102(7, 0, 2), "s446_102");
    assert!(c446_103(), "c446_103");
    assert!(s446_103(7, 0, 3), "s446_103");
    assert!(c446_104(), "c446_104");
    assert!(s446_104(7, 0, 7), "s446_104");
    assert!(c446_105(), "c446_105");
    assert!(s446_105(7, 1, 0), "s446_105");
    assert!(c446_106(), "c446_106");
    assert!(s446_106(7, 1, 1), "s446_106");
    assert!(c446_107(), "c446_107");
    assert!(s446_107(7, 1, 2), "s446_107");
    assert!(c446_108(), "c446_108");
    assert!(s446_108(7, 1, 3), "s446_108");
    assert!(c446_109(), "c446_109");
    assert!(s446_109(7, 1, 7), "s446_109");
    assert!(c446_110(), "c446_110");
    assert!(s446_110(7, 2, 0), "s446_110");
    assert!(c446_111(), "c446_111");
    assert!(s446_111(7, 2, 1), "s446_111");
    assert!(c446_112(), "c446_112");
    assert!(s446_112(7, 2, 2), "s446_112");
    assert!(c446_113(), "c446_113");
    assert!(s446_113(7, 2, 3), "s446_113");
    assert!(c446_114(), "c446_114");
    assert!(s446_114(7, 2, 7), "s446_114");
    assert!(c446_115(), "c446_115");
    assert!(s446_115(7, 3, 0), "s446_115");
    assert!(c446_116(), "c446_116");
    assert!(s446_116(7, 3, 1), "s446_116");
    assert!(c446_117(), "c446_117");
    assert!(s446_117(7, 3, 2), "s446_117");
    assert!(c446_118(), "c446_118");
    assert!(s446_118(7, 3, 3), "s446_118");
    assert!(c446_119(), "c446_119");
    assert!(s446_119(7, 3, 7), "s446_119");
    assert!(c446_120(), "c446_120");
    assert!(s446_120(7, 7, 0), "s446_120");
    assert!(c446_121(), "c446_121");
    assert!(s446_121(7, 7, 1), "s446_121");
    assert!(c446_122(), "c446_122");
    assert!(s446_122(7, 7, 2), "s446_122");
    assert!(c446_123(), "c446_123");
    assert!(s446_123(7, 7, 3), "s446_123");
    assert!(c446_124(), "c446_124");
    assert!(s446_124(7, 7, 7), "s446_124");
    assert!(c447_0(), "c447_0");
    assert!(s447_0(0, 0, 0), "s447_0");
    assert!(c447_1(), "c447_1");
    assert!(s447_1(0, 0, 1), "s447_1");
    assert!(c447_2(), "c447_2");
    assert!(s447_2(0, 0, 2), "s447_2");
    assert!(c447_3(), "c447_3");
    assert!(s447_3(0, 0, 3), "s447_3");
    assert!(c447_4(), "c447_4");
    assert!(s447_4(0, 0, 7), "s447_4");
    assert!(c447_5(), "c447_5");
    assert!(s447_5(0, 1, 0), "s447_5");
    assert!(c447_6(), "c447_6");
    assert!(s447_6(0, 1, 1), "s447_6");
    assert!(c447_7(), "c447_7");
    assert!(s447_7(0, 1, 2), "s447_7");
    assert!(c447_8(), "c447_8");
    assert!(s447_8(0, 1, 3), "s447_8");
    assert!(c447_9(), "c447_9");
    assert!(s447_9(0, 1, 7), "s447_9");
    assert!(c447_10(), "c447_10");
    assert!(s447_10(0, 2, 0), "s447_10");
    assert!(c447_11(), "c447_11");
    assert!(s447_11(0, 2, 1), "s447_11");
    assert!(c447_12(), "c447_12");
    assert!(s447_12(0, 2, 2), "s447_12");
    assert!(c447_13(), "c447_13");
    assert!(s447_13(0, 2, 3), "s447_13");
    assert!(c447_14(), "c447_14");
    assert!(s447_14(0, 2, 7), "s447_14");
    assert!(c447_15(), "c447_15");
    assert!(s447_15(0, 3, 0), "s447_15");
    assert!(c447_16(), "c447_16");
    assert!(s447_16(0, 3, 1), "s447_16");
    assert!(c447_17(), "c447_17");
    assert!(s447_17(0, 3, 2), "s447_17");
    assert!(c447_18(), "c447_18");
    assert!(s447_18(0, 3, 3), "s447_18");
    assert!(c447_19(), "c447_19");
    assert!(s447_19(0, 3, 7), "s447_19");
    assert!(c447_20(), "c447_20");
    assert!(s447_20(0, 7, 0), "s447_20");
    assert!(c447_21(), "c447_21");
    assert!(s447_21(0, 7, 1), "s447_21");
    assert!(c447_22(), "c447_22");
    assert!(s447_22(0, 7, 2), "s447_22");
    assert!(c447_23(), "c447_23");
    assert!(s447_23(0, 7, 3), "s447_23");
    assert!(c447_24(), "c447_24");
    assert!(s447_24(0, 7, 7), "s447_24");
    assert!(c447_25(), "c447_25");
    assert!(s447_25(1, 0, 0), "s447_25");
    assert!(c447_26(), "c447_26");
    assert!(s447_26(1, 0, 1), "s447_26");
    assert!(c447_27(), "c447_27");
    assert!(s447_27(1, 0, 2), "s447_27");
    assert!(c447_28(), "c447_28");
    assert!(s447_28(1, 0, 3), "s447_28");
    assert!(c447_29(), "c447_29");
    assert!(s447_29(1, 0, 7), "s447_29");
    assert!(c447_30(), "c447_30");
    assert!(s447_30(1, 1, 0), "s447_30");
    assert!(c447_31(), "c447_31");
    assert!(s447_31(1, 1, 1), "s447_31");
    assert!(c447_32(), "c447_32");
    assert!(s447_32(1, 1, 2), "s447_32");
    assert!(c447_33(), "c447_33");
    assert!(s447_33(1, 1, 3), "s447_33");
    assert!(c447_34(), "c447_34");
    assert!(s447_34(1, 1, 7), "s447_34");
    assert!(c447_35(), "c447_35");
    assert!(s447_35(1, 2, 0), "s447_35");
    assert!(c447_36(), "c447_36");
    assert!(s447_36(1, 2, 1), "s447_36");
    assert!(c447_37(), "c447_37");
    assert!(s447_37(1, 2, 2), "s447_37");
    assert!(c447_38(), "c447_38");
    assert!(s447_38(1, 2, 3), "s447_38");
    assert!(c447_39(), "c447_39");
    assert!(s447_39(1, 2, 7), "s447_39");
    assert!(c447_40(), "c447_40");
    assert!(s447_40(1, 3, 0), "s447_40");
    assert!(c447_41(), "c447_41");
    assert!(s447_41(1, 3, 1), "s447_41");
    assert!(c447_42(), "c447_42");
    assert!(s447_42(1, 3, 2), "s447_42");
    assert!(c447_43(), "c447_43");
    assert!(s447_43(1, 3, 3), "s447_43");
    assert!(c447_44(), "c447_44");
    assert!(s447_44(1, 3, 7), "s447_44");
    assert!(c447_45(), "c447_45");
    assert!(s447_45(1, 7, 0), "s447_45");
    assert!(c447_46(), "c447_46");
    assert!(s447_46(1, 7, 1), "s447_46");
    assert!(c447_47(), "c447_47");
    assert!(s447_47(1, 7, 2), "s447_47");
    assert!(c447_48(), "c447_48");
    assert!(s447_48(1, 7, 3), "s447_48");
    assert!(c447_49(), "c447_49");
    assert!(s447_49(1, 7, 7), "s447_49");
    assert!(c447_50(), "c447_50");
    assert!(s447_50(2, 0, 0), "s447_50");
    assert!(c447_51(), "c447_51");
    assert!(s447_51(2, 0, 1), "s447_51");
    assert!(c447_52(), "c447_52");
    assert!(s447_52(2, 0, 2), "s447_52");
    assert!(c447_53(), "c447_53");
    assert!(s447_53(2, 0, 3), "s447_53");
    assert!(c447_54(), "c447_54");
    assert!(s447_54(2, 0, 7), "s447_54");
    assert!(c447_55(), "c447_55");
    assert!(s447_55(2, 1, 0), "s447_55");
    assert!(c447_56(), "c447_56");
    assert!(s447_56(2, 1, 1), "s447_56");
    assert!(c447_57(), "c447_57");
    assert!(s447_57(2, 1, 2), "s447_57");
    assert!(c447_58(), "c447_58");
    assert!(s447_58(2, 1, 3), "s447_58");
    assert!(c447_59(), "c447_59");
    assert!(s447_59(2, 1, 7), "s447_59");
    assert!(c447_60(), "c447_60");
    assert!(s447_60(2, 2, 0), "s447_60");
    assert!(c447_61(), "c447_61");
    assert!(s447_61(2, 2, 1), "s447_61");
    assert!(c447_62(), "c447_62");
    assert!(s447_62(2, 2, 2), "s447_62");
    assert!(c447_63(), "c447_63");
    assert!(s447_63(2, 2, 3), "s447_63");
    assert!(c447_64(), "c447_64");
    assert!(s447_64(2, 2, 7), "s447_64");
    assert!(c447_65(), "c447_65");
    assert!(s447_65(2, 3, 0), "s447_65");
    assert!(c447_66(), "c447_66");
    assert!(s447_66(2, 3, 1), "s447_66");
    assert!(c447_67(), "c447_67");
    assert!(s447_67(2, 3, 2), "s447_67");
    assert!(c447_68(), "c447_68");
    assert!(s447_68(2, 3, 3), "s447_68");
    assert!(c447_69(), "c447_69");
    assert!(s447_69(2, 3, 7), "s447_69");
    assert!(c447_70(), "c447_70");
    assert!(s447_70(2, 7, 0), "s447_70");
    assert!(c447_71(), "c447_71");
    assert!(s447_71(2, 7, 1), "s447_71");
    assert!(c447_72(), "c447_72");
    assert!(s447_72(2, 7, 2), "s447_72");
    assert!(c447_73(), "c447_73");
    assert!(s447_73(2, 7, 3), "s447_73");
    assert!(c447_74(), "c447_74");
    assert!(s447_74(2, 7, 7), "s447_74");
    assert!(c447_75(), "c447_75");
    assert!(s447_75(3, 0, 0), "s447_75");
    assert!(c447_76(), "c447_76");
    assert!(s447_76(3, 0, 1), "s447_76");
    assert!(c447_77(), "c447_77");
    assert!(s447_77(3, 0, 2), "s447_77");
    assert!(c447_78(), "c447_78");
    assert!(s447_78(3, 0, 3), "s447_78");
    assert!(c447_79(), "c447_79");
    assert!(s447_79(3, 0, 7), "s447_79");
    assert!(c447_80(), "c447_80");
    assert!(s447_80(3, 1, 0), "s447_80");
    assert!(c447_81(), "c447_81");
    assert!(s447_81(3, 1, 1), "s447_81");
    assert!(c447_82(), "c447_82");
    assert!(s447_82(3, 1, 2), "s447_82");
    assert!(c447_83(), "c447_83");
    assert!(s447_83(3, 1, 3), "s447_83");
    assert!(c447_84(), "c447_84");
    assert!(s447_84(3, 1, 7), "s447_84");
    assert!(c447_85(), "c447_85");
    assert!(s447_85(3, 2, 0), "s447_85");
    assert!(c447_86(), "c447_86");
    assert!(s447_86(3, 2, 1), "s447_86");
    assert!(c447_87(), "c447_87");
    assert!(s447_87(3, 2, 2), "s447_87");
    assert!(c447_88(), "c447_88");
    assert!(s447_88(3, 2, 3), "s447_88");
    assert!(c447_89(), "c447_89");
    assert!(s447_89(3, 2, 7), "s447_89");
    assert!(c447_90(), "c447_90");
    assert!(s447_90(3, 3, 0), "s447_90");
    assert!(c447_91(), "c447_91");
    assert!(s447_91(3, 3, 1), "s447_91");
    assert!(c447_92(), "c447_92");
    assert!(s447_92(3, 3, 2), "s447_92");
    assert!(c447_93(), "c447_93");
    assert!(s447_93(3, 3, 3), "s447_93");
    assert!(c447_94(), "c447_94");
    assert!(s447_94(3, 3, 7), "s447_94");
    assert!(c447_95(), "c447_95");
    assert!(s447_95(3, 7, 0), "s447_95");
    assert!(c447_96(), "c447_96");
    assert!(s447_96(3, 7, 1), "s447_96");
    assert!(c447_97(), "c447_97");
    assert!(s447_97(3, 7, 2), "s447_97");
    assert!(c447_98(), "c447_98");
    assert!(s447_98(3, 7, 3), "s447_98");
    assert!(c447_99(), "c447_99");
    assert!(s447_99(3, 7, 7), "s447_99");
    assert!(c447_100(), "c447_100");
    assert!(s447_100(7, 0, 0), "s447_100");
    assert!(c447_101(), "c447_101");
    assert!(s447_101(7, 0, 1), "s447_101");
    assert!(c447_102(), "c447_102");
    assert!(s447_102(7, 0, 2), "s447_102");
    assert!(c447_103(), "c447_103");
    assert!(s447_103(7, 0, 3), "s447_103");
    assert!(c447_104(), "c447_104");
    assert!(s447_104(7, 0, 7), "s447_104");
    assert!(c447_105(), "c447_105");
    assert!(s447_105(7, 1, 0), "s447_105");
    assert!(c447_106(), "c447_106");
    assert!(s447_106(7, 1, 1), "s447_106");
    assert!(c447_107(), "c447_107");
    assert!(s447_107(7, 1, 2), "s447_107");
    assert!(c447_108(), "c447_108");
    assert!(s447_108(7, 1, 3), "s447_108");
    assert!(c447_109(), "c447_109");
    assert!(s447_109(7, 1, 7), "s447_109");
    assert!(c447_110(), "c447_110");
    assert!(s447_110(7, 2, 0), "s447_110");
    assert!(c447_111(), "c447_111");
    assert!(s447_111(7, 2, 1), "s447_111");
    assert!(c447_112(), "c447_112");
    assert!(s447_112(7, 2, 2), "s447_112");
    assert!(c447_113(), "c447_113");
    assert!(s447_113(7, 2, 3), "s447_113");
    assert!(c447_114(), "c447_114");
    assert!(s447_114(7, 2, 7), "s447_114");
    assert!(c447_115(), "c447_115");
    assert!(s447_115(7, 3, 0), "s447_115");
    assert!(c447_116(), "c447_116");
    assert!(s447_116(7, 3, 1), "s447_116");
    assert!(c447_117(), "c447_117");
    assert!(s447_117(7, 3, 2), "s447_117");
    assert!(c447_118(), "c447_118");
    assert!(s447_118(7, 3, 3), "s447_118");
    assert!(c447_119(), "c447_119");
    assert!(s447_119(7, 3, 7), "s447_119");
    assert!(c447_120(), "c447_120");
    assert!(s447_120(7, 7, 0), "s447_120");
    assert!(c447_121(), "c447_121");
    assert!(s447_121(7, 7, 1), "s447_121");
    assert!(c447_122(), "c447_122");
    assert!(s447_122(7, 7, 2), "s447_122");
    assert!(c447_123(), "c447_123");
    assert!(s447_123(7, 7, 3), "s447_123");
    assert!(c447_124(), "c447_124");
    assert!(s447_124(7, 7, 7), "s447_124");
    assert!(c448_0(), "c448_0");
    assert!(s448_0(0, 0), "s448_0");
    assert!(c448_1(), "c448_1");
    assert!(s448_1(0, 1), "s448_1");
    assert!(c448_2(), "c448_2");
    assert!(s448_2(0, 2), "s448_2");
    assert!(c448_3(), "c448_3");
    assert!(s448_3(0, 3), "s448_3");
    assert!(c448_4(), "c448_4");
    assert!(s448_4(0, 7), "s448_4");
    assert!(c448_5(), "c448_5");
    assert!(s448_5(1, 0), "s448_5");
    assert!(c448_6(), "c448_6");
    assert!(s448_6(1, 1), "s448_6");
    assert!(c448_7(), "c448_7");
    assert!(s448_7(1, 2), "s448_7");
    assert!(c448_8(), "c448_8");
    assert!(s448_8(1, 3), "s448_8");
    assert!(c448_9(), "c448_9");
    assert!(s448_9(1, 7), "s448_9");
    assert!(c448_10(), "c448_10");
    assert!(s448_10(2, 0), "s448_10");
    assert!(c448_11(), "c448_11");
    assert!(s448_11(2, 1), "s448_11");
    assert!(c448_12(), "c448_12");
    assert!(s448_12(2, 2), "s448_12");
    assert!(c448_13(), "c448_13");
    assert!(s448_13(2, 3), "s448_13");
    assert!(c448_14(), "c448_14");
    assert!(s448_14(2, 7), "s448_14");
    assert!(c448_15(), "c448_15");
    assert!(s448_15(3, 0), "s448_15");
    assert!(c448_16(), "c448_16");
    assert!(s448_16(3, 1), "s448_16");
    assert!(c448_17(), "c448_17");
    assert!(s448_17(3, 2), "s448_17");
    assert!(c448_18(), "c448_18");
    assert!(s448_18(3, 3), "s448_18");
    assert!(c448_19(), "c448_19");
    assert!(s448_19(3, 7), "s448_19");
    assert!(c448_20(), "c448_20");
    assert!(s448_20(7, 0), "s448_20");
    assert!(c448_21(), "c448_21");
    assert!(s448_21(7, 1), "s448_21");
    assert!(c448_22(), "c448_22");
    assert!(s448_22(7, 2), "s448_22");
    assert!(c448_23(), "c448_23");
    assert!(s448_23(7, 3), "s448_23");
    assert!(c448_24(), "c448_24");
    assert!(s448_24(7, 7), "s448_24");
    assert!(c449_0(), "c449_0");
    assert!(s449_0(0, 0), "s449_0");
    assert!(c449_1(), "c449_1");
    assert!(s449_1(0, 1), "s449_1");
    assert!(c449_2(), "c449_2");
    assert!(s449_2(0, 2), "s449_2");
    assert!(c449_3(), "c449_3");
    assert!(s449_3(0, 3), "s449_3");
    assert!(c449_4(), "c449_4");
    assert!(s449_4(0, 7), "s449_4");
    assert!(c449_5(), "c449_5");
    assert!(s449_5(1, 0), "s449_5");
    assert!(c449_6(), "c449_6");
    assert!(s449_6(1, 1), "s449_6");
    assert!(c449_7(), "c449_7");
    assert!(s449_7(1, 2), "s449_7");
    assert!(c449_8(), "c449_8");
    assert!(s449_8(1, 3), "s449_8");
    assert!(c449_9(), "c449_9");
    assert!(s449_9(1, 7), "s449_9");
    assert!(c449_10(), "c449_10");
    assert!(s449_10(2, 0), "s449_10");
    assert!(c449_11(), "c449_11");
    assert!(s449_11(2, 1), "s449_11");
    assert!(c449_12(), "c449_12");
    assert!(s449_12(2, 2), "s449_12");
    assert!(c449_13(), "c449_13");
    assert!(s449_13(2, 3), "s449_13");
    assert!(c449_14(), "c449_14");
    assert!(s449_14(2, 7), "s449_14");
    assert!(c449_15(), "c449_15");
    assert!(s449_15(3, 0), "s449_15");
    assert!(c449_16(), "c449_16");
    assert!(s449_16(3, 1), "s449_16");
    assert!(c449_17(), "c449_17");
    assert!(s449_17(3, 2), "s449_17");
    assert!(c449_18(), "c449_18");
    assert!(s449_18(3, 3), "s449_18");
    assert!(c449_19(), "c449_19");
    assert!(s449_19(3, 7), "s449_19");
    assert!(c449_20(), "c449_20");
    assert!(s449_20(7, 0), "s449_20");
    assert!(c449_21(), "c449_21");
    assert!(s449_21(7, 1), "s449_21");
    assert!(c449_22(), "c449_22");
    assert!(s449_22(7, 2), "s449_22");
    assert!(c449_23(), "c449_23");
    assert!(s449_23(7, 3), "s449_23");
    assert!(c449_24(), "c449_24");
    assert!(s449_24(7, 7), "s449_24");
    assert!(c450_0(), "c450_0");
    assert!(s450_0(0, 0), "s450_0");
    assert!(c450_1(), "c450_1");
    assert!(s450_1(0, 1), "s450_1");
    assert!(c450_2(), "c450_2");
    assert!(s450_2(0, 2), "s450_2");
    assert!(c450_3(), "c450_3");
    assert!(s450_3(0, 3), "s450_3");
    assert!(c450_4(), "c450_4");
    assert!(s450_4(0, 7), "s450_4");
    assert!(c450_5(), "c450_5");
    assert!(s450_5(1, 0), "s450_5");
    assert!(c450_6(), "c450_6");
    assert!(s450_6(1, 1), "s450_6");
    assert!(c450_7(), "c450_7");
    assert!(s450_7(1, 2), "s450_7");
    assert!(c450_8(), "c450_8");
    assert!(s450_8(1, 3), "s450_8");
    assert!(c450_9(), "c450_9");
    assert!(s450_9(1, 7), "s450_9");
    assert!(c450_10(), "c450_10");
    assert!(s450_10(2, 0), "s450_10");
    assert!(c450_11(), "c450_11");
    assert!(s450_11(2, 1), "s450_11");
    assert!(c450_12(), "c450_12");
    assert!(s450_12(2, 2), "s450_12");
    assert!(c450_13(), "c450_13");
    assert!(s450_13(2, 3), "s450_13");
    assert!(c450_14(), "c450_14");
    assert!(s450_14(2, 7), "s450_14");
    assert!(c450_15(), "c450_15");
    assert!(s450_15(3, 0), "s450_15");
    assert!(c450_16(), "c450_16");
    assert!(s450_16(3, 1), "s450_16");
    assert!(c450_17(), "c450_17");
    assert!(s450_17(3, 2), "s450_17");
    assert!(c450_18(), "c450_18");
    assert!(s450_18(3, 3), "s450_18");
    assert!(c450_19(), "c450_19");
    assert!(s450_19(3, 7), "s450_19");
    assert!(c450_20(), "c450_20");
    assert!(s450_20(7, 0), "s450_20");
    assert!(c450_21(), "c450_21");
    assert!(s450_21(7, 1), "s450_21");
    assert!(c450_22(), "c450_22");
    assert!(s450_22(7, 2), "s450_22");
    assert!(c450_23(), "c450_23");
    assert!(s450_23(7, 3), "s450_23");
    assert!(c450_24(), "c450_24");
    assert!(s450_24(7, 7), "s450_24");
    assert!(c451_0(), "c451_0");
    assert!(s451_0(0, 0), "s451_0");
    assert!(c451_1(), "c451_1");
    assert!(s451_1(0, 1), "s451_1");
    assert!(c451_2(), "c451_2");
    assert!(s451_2(0, 2), "s451_2");
    assert!(c451_3(), "c451_3");
    assert!(s451_3(0, 3), "s451_3");
    assert!(c451_4(), "c451_4");
    assert!(s451_4(0, 7), "s451_4");
    assert!(c451_5(), "c451_5");
    assert!(s451_5(1, 0), "s451_5");
    assert!(c451_6(), "c451_6");
    assert!(s451_6(1, 1), "s451_6");
    assert!(c451_7(), "c451_7");
    assert!(s451_7(1, 2), "s451_7");
    assert!(c451_8(), "c451_8");
    assert!(s451_8(1, 3), "s451_8");
    assert!(c451_9(), "c451_9");
    assert!(s451_9(1, 7), "s451_9");
    assert!(c451_10(), "c451_10");
    assert!(s451_10(2, 0), "s451_10");
    assert!(c451_11(), "c451_11");
    assert!(s451_11(2, 1), "s451_11");
    assert!(c451_12(), "c451_12");
    assert!(s451_12(2, 2), "s451_12");
    assert!(c451_13(), "c451_13");
    assert!(s451_13(2, 3), "s451_13");
    assert!(c451_14(), "c451_14");
    assert!(s451_14(2, 7), "s451_14");
    assert!(c451_15(), "c451_15");
    assert!(s451_15(3, 0), "s451_15");
    assert!(c451_16(), "c451_16");
    assert!(s451_16(3, 1), "s451_16");
    assert!(c451_17(), "c451_17");
    assert!(s451_17(3, 2), "s451_17");
    assert!(c451_18(), "c451_18");
    assert!(s451_18(3, 3), "s451_18");
    assert!(c451_19(), "c451_19");
    assert!(s451_19(3, 7), "s451_19");
    assert!(c451_20(), "c451_20");
    assert!(s451_20(7, 0), "s451_20");
    assert!(c451_21(), "c451_21");
    assert!(s451_21(7, 1), "s451_21");
    assert!(c451_22(), "c451_22");
    assert!(s451_22(7, 2), "s451_22");
    assert!(c451_23(), "c451_23");
    assert!(s451_23(7, 3), "s451_23");
    assert!(c451_24(), "c451_24");
    assert!(s451_24(7, 7), "s451_24");
    assert!(c452_0(), "c452_0");
    assert!(s452_0(0, 0), "s452_0");
    assert!(c452_1(), "c452_1");
    assert!(s452_1(0, 1), "s452_1");
    assert!(c452_2(), "c452_2");
    assert!(s452_2(0, 2), "s452_2");
    assert!(c452_3(), "c452_3");
    assert!(s452_3(0, 3), "s452_3");
    assert!(c452_4(), "c452_4");
    assert!(s452_4(0, 7), "s452_4");
    assert!(c452_5(), "c452_5");
    assert!(s452_5(1, 0), "s452_5");
    assert!(c452_6(), "c452_6");
    assert!(s452_6(1, 1), "s452_6");
    assert!(c452_7(), "c452_7");
    assert!(s452_7(1, 2), "s452_7");
    assert!(c452_8(), "c452_8");
    assert!(s452_8(1, 3), "s452_8");
    assert!(c452_9(), "c452_9");
    assert!(s452_9(1, 7), "s452_9");
    assert!(c452_10(), "c452_10");
    assert!(s452_10(2, 0), "s452_10");
    assert!(c452_11(), "c452_11");
    assert!(s452_11(2, 1), "s452_11");
    assert!(c452_12(), "c452_12");
    assert!(s452_12(2, 2), "s452_12");
    assert!(c452_13(), "c452_13");
    assert!(s452_13(2, 3), "s452_13");
    assert!(c452_14(), "c452_14");
    assert!(s452_14(2, 7), "s452_14");
    assert!(c452_15(), "c452_15");
    assert!(s452_15(3, 0), "s452_15");
    assert!(c452_16(), "c452_16");
    assert!(s452_16(3, 1), "s452_16");
    assert!(c452_17(), "c452_17");
    assert!(s452_17(3, 2), "s452_17");
    assert!(c452_18(), "c452_18");
    assert!(s452_18(3, 3), "s452_18");
    assert!(c452_19(), "c452_19");
    assert!(s452_19(3, 7), "s452_19");
    assert!(c452_20(), "c452_20");
    assert!(s452_20(7, 0), "s452_20");
    assert!(c452_21(), "c452_21");
    assert!(s452_21(7, 1), "s452_21");
    assert!(c452_22(), "c452_22");
    assert!(s452_22(7, 2), "s452_22");
    assert!(c452_23(), "c452_23");
    assert!(s452_23(7, 3), "s452_23");
    assert!(c452_24(), "c452_24");
    assert!(s452_24(7, 7), "s452_24");
    assert!(c453_0(), "c453_0");
    assert!(s453_0(0, 0), "s453_0");
    assert!(c453_1(), "c453_1");
    assert!(s453_1(0, 1), "s453_1");
    assert!(c453_2(), "c453_2");
    assert!(s453_2(0, 2), "s453_2");
    assert!(c453_3(), "c453_3");
    assert!(s453_3(0, 3), "s453_3");
    assert!(c453_4(), "c453_4");
    assert!(s453_4(0, 7), "s453_4");
    assert!(c453_5(), "c453_5");
    assert!(s453_5(1, 0), "s453_5");
    assert!(c453_6(), "c453_6");
    assert!(s453_6(1, 1), "s453_6");
    assert!(c453_7(), "c453_7");
    assert!(s453_7(1, 2), "s453_7");
    assert!(c453_8(), "c453_8");
    assert!(s453_8(1, 3), "s453_8");
    assert!(c453_9(), "c453_9");
    assert!(s453_9(1, 7), "s453_9");
    assert!(c453_10(), "c453_10");
    assert!(s453_10(2, 0), "s453_10");
    assert!(c453_11(), "c453_11");
    assert!(s453_11(2, 1), "s453_11");
    assert!(c453_12(), "c453_12");
    assert!(s453_12(2, 2), "s453_12");
    assert!(c453_13(), "c453_13");
    assert!(s453_13(2, 3), "s453_13");
    assert!(c453_14(), "c453_14");
    assert!(s453_14(2, 7), "s453_14");
    assert!(c453_15(), "c453_15");
    assert!(s453_15(3, 0), "s453_15");
    assert!(c453_16(), "c453_16");
    assert!(s453_16(3, 1), "s453_16");
    assert!(c453_17(), "c453_17");
    assert!(s453_17(3, 2), "s453_17");
    assert!(c453_18(), "c453_18");
    assert!(s453_18(3, 3), "s453_18");
    assert!(c453_19(), "c453_19");
    assert!(s453_19(3, 7), "s453_19");
    assert!(c453_20(), "c453_20");
    assert!(s453_20(7, 0), "s453_20");
    assert!(c453_21(), "c453_21");
    assert!(s453_21(7, 1), "s453_21");
    assert!(c453_22(), "c453_22");
    assert!(s453_22(7, 2), "s453_22");
    assert!(c453_23(), "c453_23");
    assert!(s453_23(7, 3), "s453_23");
    assert!(c453_24(), "c453_24");
    assert!(s453_24(7, 7), "s453_24");
    assert!(c454_0(), "c454_0");
    assert!(c454_1(), "c454_1");
    assert!(c454_2(), "c454_2");
    assert!(c454_3(), "c454_3");
    assert!(c454_4(), "c454_4");
    assert!(c455_0(), "c455_0");
    assert!(s455_0(0), "s455_0");
    assert!(c455_1(), "c455_1");
    assert!(s455_1(8), "s455_1");
    assert!(c455_2(), "c455_2");
    assert!(s455_2(-3), "s455_2");
    assert!(c456_0(), "c456_0");
    assert!(s456_0(0), "s456_0");
    assert!(c456_1(), "c456_1");
    assert!(s456_1(8), "s456_1");
    assert!(c456_2(), "c456_2");
    assert!(s456_2(-3), "s456_2");
    assert!(c457_0(), "c457_0");
    assert!(s457_0(0), "s457_0");
    assert!(c457_1(), "c457_1");
    assert!(s457_1(1), "s457_1");
    assert!(c457_2(), "c457_2");
    assert!(s457_2(2), "s457_2");
    assert!(c457_3(), "c457_3");
    assert!(s457_3(3), "s457_3");
    assert!(c457_4(), "c457_4");
    assert!(s457_4(7), "s457_4");
    assert!(c458_0(), "c458_0");
    assert!(s458_0(0), "s458_0");
    assert!(c458_1(), "c458_1");
    assert!(s458_1(8), "s458_1");
    assert!(c459_0(), "c459_0");
    assert!(s459_0(0), "s459_0");
    assert!(c459_1(), "c459_1");
    assert!(s459_1(1), "s459_1");
    assert!(c459_2(), "c459_2");
    assert!(s459_2(2), "s459_2");
    assert!(c459_3(), "c459_3");
    assert!(s459_3(3), "s459_3");
    assert!(c459_4(), "c459_4");
    assert!(s459_4(7), "s459_4");
    assert!(c460_0(), "c460_0");
    assert!(s460_0(0), "s460_0");
    assert!(c460_1(), "c460_1");
    assert!(s460_1(8), "s460_1");
    assert!(c460_2(), "c460_2");
    assert!(s460_2(-3), "s460_2");
    assert!(c461_0(), "c461_0");
    assert!(s461_0(0), "s461_0");
    assert!(c461_1(), "c461_1");
    assert!(s461_1(8), "s461_1");
    assert!(c461_2(), "c461_2");
    assert!(s461_2(-3), "s461_2");
    assert!(c462_0(), "c462_0");
    assert!(c462_1(), "c462_1");
    assert!(c462_2(), "c462_2");
    assert!(c462_3(), "c462_3");
    assert!(c462_4(), "c462_4");
    assert!(c463_0(), "c463_0");
    assert!(s463_0(0), "s463_0");
    assert!(c463_1(), "c463_1");
    assert!(s463_1(8), "s463_1");
    assert!(c464_0(), "c464_0");
    assert!(s464_0(""), "s464_0");
    assert!(c464_1(), "c464_1");
    assert!(s464_1("a"), "s464_1");
    assert!(c464_2(), "c464_2");
    assert!(s464_2("ab\u{a}cd"), "s464_2");
    assert!(c464_3(), "c464_3");
    assert!(s464_3("a\u{d}\u{a}b\u{a}"), "s464_3");
    assert!(c464_4(), "c464_4");
    assert!(s464_4("\u{e9}\u{1f600}x\u{a}\u{a}"), "s464_4");
    assert!(c464_5(), "c464_5");
    assert!(s464_5("\u{a}"), "s464_5");
    assert!(c464_6(), "c464_6");
    assert!(s464_6("x\u{d}y"), "s464_6");
    assert!(c464_7(), "c464_7");
    assert!(s464_7("a\u{2028}b\u{a}"), "s464_7");
    assert!(c465_0(), "c465_0");
    assert!(s465_0(""), "s465_0");
    assert!(c465_1(), "c465_1");
    assert!(s465_1("a"), "s465_1");
    assert!(c465_2(), "c465_2");
    assert!(s465_2("ab\u{a}cd"), "s465_2");
    assert!(c465_3(), "c465_3");
    assert!(s465_3("a\u{d}\u{a}b\u{a}"), "s465_3");
    assert!(c465_4(), "c465_4");
    assert!(s465_4("\u{e9}\u{1f600}x\u{a}\u{a}"), "s465_4");
    assert!(c465_5(), "c465_5");
    assert!(s465_5("\u{a}"), "s465_5");
    assert!(c465_6(), "c465_6");
    assert!(s465_6("x\u{d}y"), "s465_6");
    assert!(c465_7(), "c465_7");
    assert!(s465_7("a\u{2028}b\u{a}"), "s465_7");
    assert!(c466_0(), "c466_0");
    assert!(s466_0(""), "s466_0");
    assert!(c466_1(), "c466_1");
    assert!(s466_1("a"), "s466_1");
    assert!(c466_2(), "c466_2");
    assert!(s466_2("ab\u{a}cd"), "s466_2");
    assert!(c466_3(), "c466_3");
    assert!(s466_3("a\u{d}\u{a}b\u{a}"), "s466_3");
    assert!(c466_4(), "c466_4");
    assert!(s466_4("\u{e9}\u{1f600}x\u{a}\u{a}"), "s466_4");
    assert!(c466_5(), "c466_5");
    assert!(s466_5("\u{a}"), "s466_5");
    assert!(c466_6(), "c466_6");
    assert!(s466_6("x\u{d}y"), "s466_6");
    assert!(c466_7(), "c466_7");
    assert!(s466_7("a\u{2028}b\u{a}"), "s466_7");
    assert!(c467_0(), "c467_0");
    assert!(s467_0(""), "s467_0");
    assert!(c467_1(), "c467_1");
    assert!(s467_1("a"), "s467_1");
    assert!(c467_2(), "c467_2");
    assert!(s467_2("ab\u{a}cd"), "s467_2");
    assert!(c467_3(), "c467_3");
    assert!(s467_3("a\u{d}\u{a}b\u{a}"), "s467_3");
    assert!(c467_4(), "c467_4");
    assert!(s467_4("\u{e9}\u{1f600}x\u{a}\u{a}"), "s467_4");
    assert!(c467_5(), "c467_5");
    assert!(s467_5("\u{a}"), "s467_5");
    assert!(c467_6(), "c467_6");
    assert!(s467_6("x\u{d}y"), "s467_6");
    assert!(c467_7(), "c467_7");
    assert!(s467_7("a\u{2028}b\u{a}"), "s467_7");
    assert!(c468_0(), "c468_0");
    assert!(s468_0("", 0), "s468_0");
    assert!(c468_1(), "c468_1");
    assert!(s468_1("", 1), "s468_1");
    assert!(c468_2(), "c468_2");
    assert!(s468_2("", 2), "s468_2");
    assert!(c468_3(), "c468_3");
    assert!(s468_3("", 3), "s468_3");
    assert!(c468_4(), "c468_4");
    assert!(s468_4("", 7), "s468_4");
    assert!(c468_5(), "c468_5");
    assert!(s468_5("a", 0), "s468_5");
    assert!(c468_6(), "c468_6");
    assert!(s468_6("a", 1), "s468_6");
    assert!(c468_7(), "c468_7");
    assert!(s468_7("a", 2), "s468_7");
    assert!(c468_8(), "c468_8");
    assert!(s468_8("a", 3), "s468_8");
    assert!(c468_9(), "c468_9");
    assert!(s468_9("a", 7), "s468_9");
    assert!(c468_10(), "c468_10");
    assert!(s468_10("ab\u{a}cd", 0), "s468_10");
    assert!(c468_11(), "c468_11");
    assert!(s468_11("ab\u{a}cd", 1), "s468_11");
    assert!(c468_12(), "c468_12");
    assert!(s468_12("ab\u{a}cd", 2), "s468_12");
    assert!(c468_13(), "c468_13");
    assert!(s468_13("ab\u{a}cd", 3), "s468_13");
    assert!(c468_14(), "c468_14");
    assert!(s468_14("ab\u{a}cd", 7), "s468_14");
    assert!(c468_15(), "c468_15");
    assert!(s468_15("a\u{d}\u{a}b\u{a}", 0), "s468_15");
    assert!(c468_16(), "c468_16");
    assert!(s468_16("a\u{d}\u{a}b\u{a}", 1), "s468_16");
    assert!(c468_17(), "c468_17");
    assert!(s468_17("a\u{d}\u{a}b\u{a}", 2), "s468_17");
    assert!(c468_18(), "c468_18");
    assert!(s468_18("a\u{d}\u{a}b\u{a}", 3), "s468_18");
    assert!(c468_19(), "c468_19");
    assert!(s468_19("a\u{d}\u{a}b\u{a}", 7), "s468_19");
    assert!(c468_20(), "c468_20");
    assert!(s468_20("\u{e9}\u{1f600}x\u{a}\u{a}", 0), "s468_20");
    assert!(c468_21(), "c468_21");
    assert!(s468_21("\u{e9}\u{1f600}x\u{a}\u{a}", 1), "s468_21");
    assert!(c468_22(), "c468_22");
    assert!(s468_22("\u{e9}\u{1f600}x\u{a}\u{a}", 2), "s468_22");
    assert!(c468_23(), "c468_23");
    assert!(s468_23("\u{e9}\u{1f600}x\u{a}\u{a}", 3), "s468_23");
    assert!(c468_24(), "c468_24");
    assert!(s468_24("\u{e9}\u{1f600}x\u{a}\u{a}", 7), "s468_24");
    assert!(c468_25(), "c468_25");
    assert!(s468_25("\u{a}", 0), "s468_25");
    assert!(c468_26(), "c468_26");
    assert!(s468_26("\u{a}", 1), "s468_26");
    assert!(c468_27(), "c468_27");
    assert!(s468_27("\u{a}", 2), "s468_27");
    assert!(c468_28(), "c468_28");
    assert!(s468_28("\u{a}", 3), "s468_28");
    assert!(c468_29(), "c468_29");
    assert!(s468_29("\u{a}", 7), "s468_29");
    assert!(c468_30(), "c468_30");
    assert!(s468_30("x\u{d}y", 0), "s468_30");
    assert!(c468_31(), "c468_31");
    assert!(s468_31("x\u{d}y", 1), "s468_31");
    assert!(c468_32(), "c468_32");
    assert!(s468_32("x\u{d}y", 2), "s468_32");
    assert!(c468_33(), "c468_33");
    assert!(s468_33("x\u{d}y", 3), "s468_33");
    assert!(c468_34(), "c468_34");
    assert!(s468_34("x\u{d}y", 7), "s468_34");
    assert!(c468_35(), "c468_35");
    assert!(s468_35("a\u{2028}b\u{a}", 0), "s468_35");
    assert!(c468_36(), "c468_36");
    assert!(s468_36("a\u{2028}b\u{a}", 1), "s468_36");
    assert!(c468_37(), "c468_37");
    assert!(s468_37("a\u{2028}b\u{a}", 2), "s468_37");
    assert!(c468_38(), "c468_38");
    assert!(s468_38("a\u{2028}b\u{a}", 3), "s468_38");
    assert!(c468_39(), "c468_39");
    assert!(s468_39("a\u{2028}b\u{a}", 7), "s468_39");
    assert!(c469_0(), "c469_0");
    assert!(s469_0("", 0), "s469_0");
    assert!(c469_1(), "c469_1");
    assert!(s469_1("", 1), "s469_1");
    assert!(c469_2(), "c469_2");
    assert!(s469_2("", 2), "s469_2");
    assert!(c469_3(), "c469_3");
    assert!(s469_3("", 3), "s469_3");
    assert!(c469_4(), "c469_4");
    assert!(s469_4("", 7), "s469_4");
    assert!(c469_5(), "c469_5");
    assert!(s469_5("a", 0), "s469_5");
    assert!(c469_6(), "c469_6");
    assert!(s469_6("a", 1), "s469_6");
    assert!(c469_7(), "c469_7");
    assert!(s469_7("a", 2), "s469_7");
    assert!(c469_8(), "c469_8");
    assert!(s469_8("a", 3), "s469_8");
    assert!(c469_9(), "c469_9");
    assert!(s469_9("a", 7), "s469_9");
    assert!(c469_10(), "c469_10");
    assert!(s469_10("ab\u{a}cd", 0), "s469_10");
    assert!(c469_11(), "c469_11");
    assert!(s469_11("ab\u{a}cd", 1), "s469_11");
    assert!(c469_12(), "c469_12");
    assert!(s469_12("ab\u{a}cd", 2), "s469_12");
    assert!(c469_13(), "c469_13");
    assert!(s469_13("ab\u{a}cd", 3), "s469_13");
    assert!(c469_14(), "c469_14");
    assert!(s469_14("ab\u{a}cd", 7), "s469_14");
    assert!(c469_15(), "c469_15");
    assert!(s469_15("a\u{d}\u{a}b\u{a}", 0), "s469_15");
    assert!(c469_16(), "c469_16");
    assert!(s469_16("a\u{d}\u{a}b\u{a}", 1), "s469_16");
    assert!(c469_17(), "c469_17");
    assert!(s469_17("a\u{d}\u{a}b\u{a}", 2), "s469_17");
    assert!(c469_18(), "c469_18");
    assert!(s469_18("a\u{d}\u{a}b\u{a}", 3), "s469_18");
    assert!(c469_19(), "c469_19");
    assert!(s469_19("a\u{d}\u{a}b\u{a}", 7), "s469_19");
    assert!(c469_20(), "c469_20");
    assert!(s469_20("\u{e9}\u{1f600}x\u{a}\u{a}", 0), "s469_20");
    assert!(c469_21(), "c469_21");
    assert!(s469_21("\u{e9}\u{1f600}x\u{a}\u{a}", 1), "s469_21");
    assert!(c469_22(), "c469_22");
    assert!(s469_22("\u{e9}\u{1f600}x\u{a}\u{a}", 2), "s469_22");
    assert!(c469_23(), "c469_23");
    assert!(s469_23("\u{e9}\u{1f600}x\u{a}\u{a}", 3), "s469_23");
    assert!(c469_24(), "c469_24");
    assert!(s469_24("\u{e9}\u{1f600}x\u{a}\u{a}", 7), "s469_24");
    assert!(c469_25(), "c469_25");
    assert!(s469_25("\u{a}", 0), "s469_25");
    assert!(c469_26(), "c469_26");
    assert!(s469_26("\u{a}", 1), "s469_26");
    assert!(c469_27(), "c469_27");
    assert!(s469_27("\u{a}", 2), "s469_27");
    assert!(c469_28(), "c469_28");
    assert!(s469_28("\u{a}", 3), "s469_28");
    assert!(c469_29(), "c469_29");
    assert!(s469_29("\u{a}", 7), "s469_29");
    assert!(c469_30(), "c469_30");
    assert!(s469_30("x\u{d}y", 0), "s469_30");
    assert!(c469_31(), "c469_31");
    assert!(s469_31("x\u{d}y", 1), "s469_31");
    assert!(c469_32(), "c469_32");
    assert!(s469_32("x\u{d}y", 2), "s469_32");
    assert!(c469_33(), "c469_33");
    assert!(s469_33("x\u{d}y", 3), "s469_33");
    assert!(c469_34(), "c469_34");
    assert!(s469_34("x\u{d}y", 7), "s469_34");
    assert!(c469_35(), "c469_35");
    assert!(s469_35("a\u{2028}b\u{a}", 0), "s469_35");
    assert!(c469_36(), "c469_36");
    assert!(s469_36("a\u{2028}b\u{a}", 1), "s469_36");
    assert!(c469_37(), "c469_37");
    assert!(s469_37("a\u{2028}b\u{a}", 2), "s469_37");
    assert!(c469_38(), "c469_38");
    assert!(s469_38("a\u{2028}b\u{a}", 3), "s469_38");
    assert!(c469_39(), "c469_39");
    assert!(s469_39("a\u{2028}b\u{a}", 7), "s469_39");
    assert!(c470_0(), "c470_0");
    assert!(s470_0("", 0), "s470_0");
    assert!(c470_1(), "c470_1");
    assert!(s470_1("", 1), "s470_1");
    assert!(c470_2(), "c470_2");
    assert!(s470_2("", 2), "s470_2");
    assert!(c470_3(), "c470_3");
    assert!(s470_3("", 3), "s470_3");
    assert!(c470_4(), "c470_4");
    assert!(s470_4("", 7), "s470_4");
    assert!(c470_5(), "c470_5");
    assert!(s470_5("a", 0), "s470_5");
    assert!(c470_6(), "c470_6");
    assert!(s470_6("a", 1), "s470_6");
    assert!(c470_7(), "c470_7");
    assert!(s470_7("a", 2), "s470_7");
    assert!(c470_8(), "c470_8");
    assert!(s470_8("a", 3), "s470_8");
    assert!(c470_9(), "c470_9");
    assert!(s470_9("a", 7), "s470_9");
    assert!(c470_10(), "c470_10");
    assert!(s470_10("ab\u{a}cd", 0), "s470_10");
    assert!(c470_11(), "c470_11");
    assert!(s470_11("ab\u{a}cd", 1), "s470_11");
    assert!(c470_12(), "c470_12");
    assert!(s470_12("ab\u{a}cd", 2), "s470_12");
    assert!(c470_13(), "c470_13");
    assert!(s470_13("ab\u{a}cd", 3), "s470_13");
    assert!(c470_14(), "c470_14");
    assert!(s470_14("ab\u{a}cd", 7), "s470_14");
    assert!(c470_15(), "c470_15");
    assert!(s470_15("a\u{d}\u{a}b\u{a}", 0), "s470_15");
    assert!(c470_16(), "c470_16");
    assert!(s470_16("a\u{d}\u{a}b\u{a}", 1), "s470_16");
    assert!(c470_17(), "c470_17");
    assert!(s470_17("a\u{d}\u{a}b\u{a}", 2), "s470_17");
    assert!(c470_18(), "c470_18");
    assert!(s470_18("a\u{d}\u{a}b\u{a}", 3), "s470_18");
    assert!(c470_19(), "c470_19");
    assert!(s470_19("a\u{d}\u{a}b\u{a}", 7), "s470_19");
    assert!(c470_20(), "c470_20");
    assert!(s470_20("\u{e9}\u{1f600}x\u{a}\u{a}", 0), "s470_20");
    assert!(c470_21(), "c470_21");
    assert!(s470_21("\u{e9}\u{1f600}x\u{a}\u{a}", 1), "s470_21");
    assert!(c470_22(), "c470_22");
    assert!(s470_22("\u{e9}\u{1f600}x\u{a}\u{a}", 2), "s470_22");
    assert!(c470_23(), "c470_23");
    assert!(s470_23("\u{e9}\u{1f600}x\u{a}\u{a}", 3), "s470_23");
    assert!(c470_24(), "c470_24");
    assert!(s470_24("\u{e9}\u{1f600}x\u{a}\u{a}", 7), "s470_24");
    assert!(c470_25(), "c470_25");
    assert!(s470_25("\u{a}", 0), "s470_25");
    assert!(c470_26(), "c470_26");
    assert!(s470_26("\u{a}", 1), "s470_26");
    assert!(c470_27(), "c470_27");
    assert!(s470_27("\u{a}", 2), "s470_27");
    assert!(c470_28(), "c470_28");
    assert!(s470_28("\u{a}", 3), "s470_28");
    assert!(c470_29(), "c470_29");
    assert!(s470_29("\u{a}", 7), "s470_29");
    assert!(c470_30(), "c470_30");
    assert!(s470_30("x\u{d}y", 0), "s470_30");
    assert!(c470_31(), "c470_31");
    assert!(s470_31("x\u{d}y", 1), "s470_31");
    assert!(c470_32(), "c470_32");
    assert!(s470_32("x\u{d}y", 2), "s470_32");
    assert!(c470_33(), "c470_33");
    assert!(s470_33("x\u{d}y", 3), "s470_33");
    assert!(c470_34(), "c470_34");
    assert!(s470_34("x\u{d}y", 7), "s470_34");
    assert!(c470_35(), "c470_35");
    assert!(s470_35("a\u{2028}b\u{a}", 0), "s470_35");
    assert!(c470_36(), "c470_36");
    assert!(s470_36("a\u{2028}b\u{a}", 1), "s470_36");
    assert!(c470_37(), "c470_37");
    assert!(s470_37("a\u{2028}b\u{a}", 2), "s470_37");
    assert!(c470_38(), "c470_38");
    assert!(s470_38("a\u{2028}b\u{a}", 3), "s470_38");
    assert!(c470_39(), "c470_39");
    assert!(s470_39("a\u{2028}b\u{a}", 7), "s470_39");
    assert!(c471_0(), "c471_0");
    assert!(s471_0("", 0), "s471_0");
    assert!(c471_1(), "c471_1");
    assert!(s471_1("", 1), "s471_1");
    assert!(c471_2(), "c471_2");
    assert!(s471_2("", 2), "s471_2");
    assert!(c471_3(), "c471_3");
    assert!(s471_3("", 3), "s471_3");
    assert!(c471_4(), "c471_4");
    assert!(s471_4("", 7), "s471_4");
    assert!(c471_5(), "c471_5");
    assert!(s471_5("a", 0), "s471_5");
    assert!(c471_6(), "c471_6");
    assert!(s471_6("a", 1), "s471_6");
    assert!(c471_7(), "c471_7");
    assert!(s471_7("a", 2), "s471_7");
    assert!(c471_8(), "c471_8");
    assert!(s471_8("a", 3), "s471_8");
    assert!(c471_9(), "c471_9");
    assert!(s471_9("a", 7), "s471_9");
    assert!(c471_10(), "c471_10");
    assert!(s471_10("ab\u{a}cd", 0), "s471_10");
    assert!(c471_11(), "c471_11");
    assert!(s471_11("ab\u{a}cd", 1), "s471_11");
    assert!(c471_12(), "c471_12");
    assert!(s471_12("ab\u{a}cd", 2), "s471_12");
    assert!(c471_13(), "c471_13");
    assert!(s471_13("ab\u{a}cd", 3), "s471_13");
    assert!(c471_14(), "c471_14");
    assert!(s471_14("ab\u{a}cd", 7), "s471_14");
    assert!(c471_15(), "c471_15");
    assert!(s471_15("a\u{d}\u{a}b\u{a}", 0), "s471_15");
    assert!(c471_16(), "c471_16");
    assert!(s471_16("a\u{d}\u{a}b\u{a}", 1), "s471_16");
    assert!(c471_17(), "c471_17");
    assert!(s471_17("a\u{d}\u{a}b\u{a}", 2), "s471_17");
    assert!(c471_18(), "c471_18");
    assert!(s471_18("a\u{d}\u{a}b\u{a}", 3), "s471_18");
    assert!(c471_19(), "c471_19");
    assert!(s471_19("a\u{d}\u{a}b\u{a}", 7), "s471_19");
    assert!(c471_20(), "c471_20");
    assert!(s471_20("\u{e9}\u{1f600}x\u{a}\u{a}", 0), "s471_20");
    assert!(c471_21(), "c471_21");
    assert!(s471_21("\u{e9}\u{1f600}x\u{a}\u{a}", 1), "s471_21");
    assert!(c471_22(), "c471_22");
    assert!(s471_22("\u{e9}\u{1f600}x\u{a}\u{a}", 2), "s471_22");
    assert!(c471_23(), "c471_23");
    assert!(s471_23("\u{e9}\u{1f600}x\u{a}\u{a}", 3), "s471_23");
    assert!(c471_24(), "c471_24");
    assert!(s471_24("\u{e9}\u{1f600}x\u{a}\u{a}", 7), "s471_24");
    assert!(c471_25(), "c471_25");
    assert!(s471_25("\u{a}", 0), "s471_25");
    assert!(c471_26(), "c471_26");
    assert!(s471_26("\u{a}", 1), "s471_26");
    assert!(c471_27(), "c471_27");
    assert!(s471_27("\u{a}", 2), "s471_27");
    assert!(c471_28(), "c471_28");
    assert!(s471_28("\u{a}", 3), "s471_28");
    assert!(c471_29(), "c471_29");
    assert!(s471_29("\u{a}", 7), "s471_29");
    assert!(c471_30(), "c471_30");
    assert!(s471_30("x\u{d}y", 0), "s471_30");
    assert!(c471_31(), "c471_31");
    assert!(s471_31("x\u{d}y", 1), "s471_31");
    assert!(c471_32(), "c471_32");
    assert!(s471_32("x\u{d}y", 2), "s471_32");
    assert!(c471_33(), "c471_33");
    assert!(s471_33("x\u{d}y", 3), "s471_33");
    assert!(c471_34(), "c471_34");
    assert!(s471_34("x\u{d}y", 7), "s471_34");
    assert!(c471_35(), "c471_35");
    assert!(s471_35("a\u{2028}b\u{a}", 0), "s471_35");
    assert!(c471_36(), "c471_36");
    assert!(s471_36("a\u{2028}b\u{a}", 1), "s471_36");
    assert!(c471_37(), "c471_37");
    assert!(s471_37("a\u{2028}b\u{a}", 2), "s471_37");
    assert!(c471_38(), "c471_38");
    assert!(s471_38("a\u{2028}b\u{a}", 3), "s471_38");
    assert!(c471_39(), "c471_39");
    assert!(s471_39("a\u{2028}b\u{a}", 7), "s471_39");
    assert!(c472_0(), "c472_0");
    assert!(s472_0("", 0), "s472_0");
    assert!(c472_1(), "c472_1");
    assert!(s472_1("", 1), "s472_1");
    assert!(c472_2(), "c472_2");
    assert!(s472_2("", 2), "s472_2");
    assert!(c472_3(), "c472_3");
    assert!(s472_3("", 3), "s472_3");
    assert!(c472_4(), "c472_4");
    assert!(s472_4("", 7), "s472_4");
    assert!(c472_5(), "c472_5");
    assert!(s472_5("a", 0), "s472_5");
    assert!(c472_6(), "c472_6");
    assert!(s472_6("a", 1), "s472_6");
    assert!(c472_7(), "c472_7");
    assert!(s472_7("a", 2), "s472_7");
    assert!(c472_8(), "c472_8");
    assert!(s472_8("a", 3), "s472_8");
    assert!(c472_9(), "c472_9");
    assert!(s472_9("a", 7), "s472_9");
    assert!(c472_10(), "c472_10");
    assert!(s472_10("ab\u{a}cd", 0), "s472_10");
    assert!(c472_11(), "c472_11");
    assert!(s472_11("ab\u{a}cd", 1), "s472_11");
    assert!(c472_12(), "c472_12");
    assert!(s472_12("ab\u{a}cd", 2), "s472_12");
    assert!(c472_13(), "c472_13");
    assert!(s472_13("ab\u{a}cd", 3), "s472_13");
    assert!(c472_14(), "c472_14");
    assert!(s472_14("ab\u{a}cd", 7), "s472_14");
    assert!(c472_15(), "c472_15");
    assert!(s472_15("a\u{d}\u{a}b\u{a}", 0), "s472_15");
    assert!(c472_16(), "c472_16");
    assert!(s472_16("a\u{d}\u{a}b\u{a}", 1), "s472_16");
    assert!(c472_17(), "c472_17");
    assert!(s472_17("a\u{d}\u{a}b\u{a}", 2), "s472_17");
    assert!(c472_18(), "c472_18");
    assert!(s472_18("a\u{d}\u{a}b\u{a}", 3), "s472_18");
    assert!(c472_19(), "c472_19");
    assert!(s472_19("a\u{d}\u{a}b\u{a}", 7), "s472_19");
    assert!(c472_20(), "c472_20");
    assert!(s472_20("\u{e9}\u{1f600}x\u{a}\u{a}", 0), "s472_20");
    assert!(c472_21(), "c472_21");
    assert!(s472_21("\u{e9}\u{1f600}x\u{a}\u{a}", 1), "s472_21");
    assert!(c472_22(), "c472_22");
    assert!(s472_22("\u{e9}\u{1f600}x\u{a}\u{a}", 2), "s472_22");
    assert!(c472_23(), "c472_23");
    assert!(s472_23("\u{e9}\u{1f600}x\u{a}\u{a}", 3), "s472_23");
    assert!(c472_24(), "c472_24");
    assert!(s472_24("\u{e9}\u{1f600}x\u{a}\u{a}", 7), "s472_24");
    assert!(c472_25(), "c472_25");
    assert!(s472_25("\u{a}", 0), "s472_25");
    assert!(c472_26(), "c472_26");
    assert!(s472_26("\u{a}", 1), "s472_26");
    assert!(c472_27(), "c472_27");
    assert!(s472_27("\u{a}", 2), "s472_27");
    assert!(c472_28(), "c472_28");
    assert!(s472_28("\u{a}", 3), "s472_28");
    assert!(c472_29(), "c472_29");
    assert!(s472_29("\u{a}", 7), "s472_29");
    assert!(c472_30(), "c472_30");
    assert!(s472_30("x\u{d}y", 0), "s472_30");
    assert!(c472_31(), "c472_31");
    assert!(s472_31("x\u{d}y", 1), "s472_31");
    assert!(c472_32(), "c472_32");
    assert!(s472_32("x\u{d}y", 2), "s472_32");
    assert!(c472_33(), "c472_33");
    assert!(s472_33("x\u{d}y", 3), "s472_33");
    assert!(c472_34(), "c472_34");
    assert!(s472_34("x\u{d}y", 7), "s472_34");
    assert!(c472_35(), "c472_35");
    assert!(s472_35("a\u{2028}b\u{a}", 0), "s472_35");
    assert!(c472_36(), "c472_36");
    assert!(s472_36("a\u{2028}b\u{a}", 1), "s472_36");
    assert!(c472_37(), "c472_37");
    assert!(s472_37("a\u{2028}b\u{a}", 2), "s472_37");
    assert!(c472_38(), "c472_38");
    assert!(s472_38("a\u{2028}b\u{a}", 3), "s472_38");
    assert!(c472_39(), "c472_39");
    assert!(s472_39("a\u{2028}b\u{a}", 7), "s472_39");
    assert!(c473_0(), "c473_0");
    assert!(s473_0("", 0), "s473_0");
    assert!(c473_1(), "c473_1");
    assert!(s473_1("", 1), "s473_1");
    assert!(c473_2(), "c473_2");
    assert!(s473_2("", 2), "s473_2");
    assert!(c473_3(), "c473_3");
    assert!(s473_3("", 3), "s473_3");
    assert!(c473_4(), "c473_4");
    assert!(s473_4("", 7), "s473_4");
    assert!(c473_5(), "c473_5");
    assert!(s473_5("a", 0), "s473_5");
    assert!(c473_6(), "c473_6");
    assert!(s473_6("a", 1), "s473_6");
    assert!(c473_7(), "c473_7");
    assert!(s473_7("a", 2), "s473_7");
    assert!(c473_8(), "c473_8");
    assert!(s473_8("a", 3), "s473_8");
    assert!(c473_9(), "c473_9");
    assert!(s473_9("a", 7), "s473_9");
    assert!(c473_10(), "c473_10");
    assert!(s473_10("ab\u{a}cd", 0), "s473_10");
    assert!(c473_11(), "c473_11");
    assert!(s473_11("ab\u{a}cd", 1), "s473_11");
    assert!(c473_12(), "c473_12");
    assert!(s473_12("ab\u{a}cd", 2), "s473_12");
    assert!(c473_13(), "c473_13");
    assert!(s473_13("ab\u{a}cd", 3), "s473_13");
    assert!(c473_14(), "c473_14");
    assert!(s473_14("ab\u{a}cd", 7), "s473_14");
    assert!(c473_15(), "c473_15");
    assert!(s473_15("a\u{d}\u{a}b\u{a}", 0), "s473_15");
    assert!(c473_16(), "c473_16");
    assert!(s473_16("a\u{d}\u{a}b\u{a}", 1), "s473_16");
    assert!(c473_17(), "c473_17");
    assert!(s473_17("a\u{d}\u{a}b\u{a}", 2), "s473_17");
    assert!(c473_18(), "c473_18");
    assert!(s473_18("a\u{d}\u{a}b\u{a}", 3), "s473_18");
    assert!(c473_19(), "c473_19");
    assert!(s473_19("a\u{d}\u{a}b\u{a}", 7), "s473_19");
    assert!(c473_20(), "c473_20");
    assert!(s473_20("\u{e9}\u{1f600}x\u{a}\u{a}", 0), "s473_20");
    assert!(c473_21(), "c473_21");
    assert!(s473_21("\u{e9}\u{1f600}x\u{a}\u{a}", 1), "s473_21");
    assert!(c473_22(), "c473_22");
    assert!(s473_22("\u{e9}\u{1f600}x\u{a}\u{a}", 2), "s473_22");
    assert!(c473_23(), "c473_23");
    assert!(s473_23("\u{e9}\u{1f600}x\u{a}\u{a}", 3), "s473_23");
    assert!(c473_24(), "c473_24");
    assert!(s473_24("\u{e9}\u{1f600}x\u{a}\u{a}", 7), "s473_24");
    assert!(c473_25(), "c473_25");
    assert!(s473_25("\u{a}", 0), "s473_25");
    assert!(c473_26(), "c473_26");
    assert!(s473_26("\u{a}", 1), "s473_26");
    assert!(c473_27(), "c473_27");
    assert!(s473_27("\u{a}", 2), "s473_27");
    assert!(c473_28(), "c473_28");
    assert!(s473_28("\u{a}", 3), "s473_28");
    assert!(c473_29(), "c473_29");
    assert!(s473_29("\u{a}", 7), "s473_29");
    assert!(c473_30(), "c473_30");
    assert!(s473_30("x\u{d}y", 0), "s473_30");
    assert!(c473_31(), "c473_31");
    assert!(s473_31("x\u{d}y", 1), "s473_31");
    assert!(c473_32(), "c473_32");
    assert!(s473_32("x\u{d}y", 2), "s473_32");
    assert!(c473_33(), "c473_33");
    assert!(s473_33("x\u{d}y", 3), "s473_33");
    assert!(c473_34(), "c473_34");
    assert!(s473_34("x\u{d}y", 7), "s473_34");
    assert!(c473_35(), "c473_35");
    assert!(s473_35("a\u{2028}b\u{a}", 0), "s473_35");
    assert!(c473_36(), "c473_36");
    assert!(s473_36("a\u{2028}b\u{a}", 1), "s473_36");
    assert!(c473_37(), "c473_37");
    assert!(s473_37("a\u{2028}b\u{a}", 2), "s473_37");
    assert!(c473_38(), "c473_38");
    assert!(s473_38("a\u{2028}b\u{a}", 3), "s473_38");
    assert!(c473_39(), "c473_39");
    assert!(s473_39("a\u{2028}b\u{a}", 7), "s473_39");
    assert!(c474_0(), "c474_0");
    assert!(s474_0(""), "s474_0");
    assert!(c474_1(), "c474_1");
    assert!(s474_1("{}"), "s474_1");
    assert!(c474_2(), "c474_2");
    assert!(s474_2("[]"), "s474_2");
    assert!(c474_3(), "c474_3");
    assert!(s474_3("null"), "s474_3");
    assert!(c474_4(), "c474_4");
    assert!(s474_4("{\u{22}backtrace\u{22}:[[\u{22}a\u{22},\u{22}b:1\u{22}]]}"), "s474_4");
    assert!(c474_5(), "c474_5");
    assert!(s474_5("{\u{22}backtrace\u{22}:3}"), "s474_5");
    assert!(c474_6(), "c474_6");
    assert!(s474_6("[\u{22}x\u{22}]"), "s474_6");
    assert!(c474_7(), "c474_7");
    assert!(s474_7("1"), "s474_7");
    assert!(c474_8(), "c474_8");
    assert!(s474_8("\u{22}s\u{22}"), "s474_8");
    assert!(c474_9(), "c474_9");
    assert!(s474_9("{"), "s474_9");
    assert!(c474_10(), "c474_10");
    assert!(s474_10("{\u{22}a\u{22}:\u{22}b\u{22}}"), "s474_10");
    assert!(c475_0(), "c475_0");
    assert!(s475_0(""), "s475_0");
    assert!(c475_1(), "c475_1");
    assert!(s475_1("{}"), "s475_1");
    assert!(c475_2(), "c475_2");
    assert!(s475_2("[]"), "s475_2");
    assert!(c475_3(), "c475_3");
    assert!(s475_3("null"), "s475_3");
    assert!(c475_4(), "c475_4");
    assert!(s475_4("{\u{22}backtrace\u{22}:[[\u{22}a\u{22},\u{22}b:1\u{22}]]}"), "s475_4");
    assert!(c475_5(), "c475_5");
    assert!(s475_5("{\u{22}backtrace\u{22}:3}"), "s475_5");
    assert!(c475_6(), "c475_6");
    assert!(s475_6("[\u{22}x\u{22}]"), "s475_6");
    assert!(c475_7(), "c475_7");
    assert!(s475_7("1"), "s475_7");
    assert!(c475_8(), "c475_8");
    assert!(s475_8("\u{22}s\u{22}"), "s475_8");
    assert!(c475_9(), "c475_9");
    assert!(s475_9("{"), "s475_9");
    assert!(c475_10(), "c475_10");
    assert!(s475_10("{\u{22}a\u{22}:\u{22}b\u{22}}"), "s475_10");
    assert!(c476_0(), "c476_0");
    assert!(s476_0(""), "s476_0");
    assert!(c476_1(), "c476_1");
    assert!(s476_1("{}"), "s476_1");
    assert!(c476_2(), "c476_2");
    assert!(s476_2("[]"), "s476_2");
    assert!(c476_3(), "c476_3");
    assert!(s476_3("null"), "s476_3");
    assert!(c476_4(), "c476_4");
    assert!(s476_4("{\u{22}backtrace\u{22}:[[\u{22}a\u{22},\u{22}b:1\u{22}]]}"), "s476_4");
    assert!(c476_5(), "c476_5");
    assert!(s476_5("{\u{22}backtrace\u{22}:3}"), "s476_5");
    assert!(c476_6(), "c476_6");
    assert!(s476_6("[\u{22}x\u{22}]"), "s476_6");
    assert!(c476_7(), "c476_7");
    assert!(s476_7("1"), "s476_7");
    assert!(c476_8(), "c476_8");
    assert!(s476_8("\u{22}s\u{22}"), "s476_8");
    assert!(c476_9(), "c476_9");
    assert!(s476_9("{"), "s476_9");
    assert!(c476_10(), "c476_10");
    assert!(s476_10("{\u{22}a\u{22}:\u{22}b\u{22}}"), "s476_10");
    assert!(c477_0(), "c477_0");
    assert!(s477_0(""), "s477_0");
    assert!(c477_1(), "c477_1");
    assert!(s477_1("{}"), "s477_1");
    assert!(c477_2(), "c477_2");
    assert!(s477_2("[]"), "s477_2");
    assert!(c477_3(), "c477_3");
    assert!(s477_3("null"), "s477_3");
    assert!(c477_4(), "c477_4");
    assert!(s477_4("{\u{22}backtrace\u{22}:[[\u{22}a\u{22},\u{22}b:1\u{22}]]}"), "s477_4");
    assert!(c477_5(), "c477_5");
    assert!(s477_5("{\u{22}backtrace\u{22}:3}"), "s477_5");
    assert!(c477_6(), "c477_6");
    assert!(s477_6("[\u{22}x\u{22}]"), "s477_6");
    assert!(c477_7(), "c477_7");
    assert!(s477_7("1"), "s477_7");
    assert!(c477_8(), "c477_8");
    assert!(s477_8("\u{22}s\u{22}"), "s477_8");
    assert!(c477_9(), "c477_9");
    assert!(s477_9("{"), "s477_9");
    assert!(c477_10(), "c477_10");
    assert!(s477_10("{\u{22}a\u{22}:\u{22}b\u{22}}"), "s477_10");
    assert!(c478_0(), "c478_0");
    assert!(s478_0(""), "s478_0");
    assert!(c478_1(), "c478_1");
    assert!(s478_1("{}"), "s478_1");
    assert!(c478_2(), "c478_2");
    assert!(s478_2("[]"), "s478_2");
    assert!(c478_3(), "c478_3");
    assert!(s478_3("null"), "s478_3");
    assert!(c478_4(), "c478_4");
    assert!(s478_4("{\u{22}backtrace\u{22}:[[\u{22}a\u{22},\u{22}b:1\u{22}]]}"), "s478_4");
    assert!(c478_5(), "c478_5");
    assert!(s478_5("{\u{22}backtrace\u{22}:3}"), "s478_5");
    assert!(c478_6(), "c478_6");
    assert!(s478_6("[\u{22}x\u{22}]"), "s478_6");
    assert!(c478_7(), "c478_7");
    assert!(s478_7("1"), "s478_7");
    assert!(c478_8(), "c478_8");
    assert!(s478_8("\u{22}s\u{22}"), "s478_8");
    assert!(c478_9(), "c478_9");
    assert!(s478_9("{"), "s478_9");
    assert!(c478_10(), "c478_10");
    assert!(s478_10("{\u{22}a\u{22}:\u{22}b\u{22}}"), "s478_10");
    assert!(c479_0(), "c479_0");
    assert!(c479_1(), "c479_1");
    assert!(c479_2(), "c479_2");
    assert!(c479_3(), "c479_3");
    assert!(c479_4(), "c479_4");
    assert!(c480_0(), "c480_0");
    assert!(c480_1(), "c480_1");
    assert!(c480_2(), "c480_2");
    assert!(c480_3(), "c480_3");
    assert!(c480_4(), "c480_4");
    assert!(c481_0(), "c481_0");
    assert!(c481_1(), "c481_1");
    assert!(c481_2(), "c481_2");
    assert!(c481_3(), "c481_3");
    assert!(c481_4(), "c481_4");
    assert!(c482_0(), "c482_0");
    assert!(c482_1(), "c482_1");
    assert!(c482_2(), "c482_2");
    assert!(c482_3(), "c482_3");
    assert!(c482_4(), "c482_4");
    assert!(c483_0(), "c483_0");
    assert!(c483_1(), "c483_1");
    assert!(c483_2(), "c483_2");
    assert!(c483_3(), "c483_3");
    assert!(c483_4(), "c483_4");
    assert!(c484_0(), "c484_0");
    assert!(c484_1(), "c484_1");
    assert!(c484_2(), "c484_2");
    assert!(c484_3(), "c484_3");
    assert!(c484_4(), "c484_4");
    assert!(c485_0(), "c485_0");
    assert!(c485_1(), "c485_1");
    assert!(c485_2(), "c485_2");
    assert!(c485_3(), "c485_3");
    assert!(c485_4(), "c485_4");
    assert!(c486_0(), "c486_0");
    assert!(c486_1(), "c486_1");
    assert!(c486_2(), "c486_2");
    assert!(c486_3(), "c486_3");
    assert!(c486_4(), "c486_4");
    assert!(c487_0(), "c487_0");
    assert!(c487_1(), "c487_1");
    assert!(c487_2(), "c487_2");
    assert!(c487_3(), "c487_3");
    assert!(c487_4(), "c487_4");
    assert!(c488_0(), "c488_0");
    assert!(c488_1(), "c488_1");
    assert!(c488_2(), "c488_2");
    assert!(c488_3(), "c488_3");
    assert!(c488_4(), "c488_4");
    assert!(c489_0(), "c489_0");
    assert!(c489_1(), "c489_1");
    assert!(c489_2(), "c489_2");
    assert!(c489_3(), "c489_3");
    assert!(c489_4(), "c489_4");
    assert!(c490_0(), "c490_0");
    assert!(c490_1(), "c490_1");
    assert!(c490_2(), "c490_2");
    assert!(c490_3(), "c490_3");
    assert!(c490_4(), "c490_4");
    assert!(c491_0(), "c491_0");
    assert!(c491_1(), "c491_1");
    assert!(c491_2(), "c491_2");
    assert!(c491_3(), "c491_3");
    assert!(c491_4(), "c491_4");
    assert!(c492_0(), "c492_0");
    assert!(c492_1(), "c492_1");
    assert!(c492_2(), "c492_2");
    assert!(c492_3(), "c492_3");
    assert!(c492_4(), "c492_4");
    assert!(c493_0(), "c493_0");
    assert!(c493_1(), "c493_1");
    assert!(c493_2(), "c493_2");
    assert!(c493_3(), "c493_3");
    assert!(c493_4(), "c493_4");
    assert!(c494_0(), "c494_0");
    assert!(c494_1(), "c494_1");
    assert!(c494_2(), "c494_2");
    assert!(c494_3(), "c494_3");
    assert!(c494_4(), "c494_4");
    assert!(c495_0(), "c495_0");
    assert!(c495_1(), "c495_1");
    assert!(c495_2(), "c495_2");
    assert!(c495_3(), "c495_3");
    assert!(c495_4(), "c495_4");
    assert!(c496_0(), "c496_0");
    assert!(c496_1(), "c496_1");
    assert!(c496_2(), "c496_2");
    assert!(c496_3(), "c496_3");
    assert!(c496_4(), "c496_4");
    assert!(c497_0(), "c497_0");
    assert!(c497_1(), "c497_1");
    assert!(c497_2(), "c497_2");
    assert!(c497_3(), "c497_3");
    assert!(c497_4(), "c497_4");
    assert!(c498_0(), "c498_0");
    assert!(c498_1(), "c498_1");
    assert!(c498_2(), "c498_2");
    assert!(c498_3(), "c498_3");
    assert!(c498_4(), "c498_4");
    assert!(c499_0(), "c499_0");
    assert!(c499_1(), "c499_1");
    assert!(c499_2(), "c499_2");
    assert!(c499_3(), "c499_3");
    assert!(c499_4(), "c499_4");
    assert!(c500_0(), "c500_0");
    assert!(c500_1(), "c500_1");
    assert!(c500_2(), "c500_2");
    assert!(c500_3(), "c500_3");
    assert!(c500_4(), "c500_4");
    assert!(c501_0(), "c501_0");
    assert!(s501_0(""), "s501_0");
    assert!(c501_1(), "c501_1");
    assert!(s501_1("a"), "s501_1");
    assert!(c501_2(), "c501_2");
    assert!(s501_2("abc"), "s501_2");
    assert!(c501_3(), "c501_3");
    assert!(s501_3("%a1"), "s501_3");
    assert!(c501_4(), "c501_4");
    assert!(s501_4("\u{e9}%x"), "s501_4");
    assert!(c501_5(), "c501_5");
    assert!(s501_5("a:b:c"), "s501_5");
    assert!(c501_6(), "c501_6");
    assert!(s501_6("::"), "s501_6");
    assert!(c501_7(), "c501_7");
    assert!(s501_7("  x "), "s501_7");
    assert!(c501_8(), "c501_8");
    assert!(s501_8("12"), "s501_8");
    assert!(c501_9(), "c501_9");
    assert!(s501_9("-5"), "s501_9");
    assert!(c501_10(), "c501_10");
    assert!(s501_10("+7"), "s501_10");
    assert!(c501_11(), "c501_11");
    assert!(s501_11("99999999999999999999"), "s501_11");
    assert!(c501_12(), "c501_12");
    assert!(s501_12("a\u{a}b\u{d}\u{a}c"), "s501_12");
    assert!(c501_13(), "c501_13");
    assert!(s501_13("\u{65e5}\u{672c}"), "s501_13");
    assert!(c501_14(), "c501_14");
    assert!(s501_14("\u{1f600}z"), "s501_14");
    assert!(c501_15(), "c501_15");
    assert!(s501_15("xx"), "s501_15");
    assert!(c502_0(), "c502_0");
    assert!(s502_0(""), "s502_0");
    assert!(c502_1(), "c502_1");
    assert!(s502_1("a"), "s502_1");
    assert!(c502_2(), "c502_2");
    assert!(s502_2("abc"), "s502_2");
    assert!(c502_3(), "c502_3");
    assert!(s502_3("%a1"), "s502_3");
    assert!(c502_4(), "c502_4");
    assert!(s502_4("\u{e9}%x"), "s502_4");
    assert!(c502_5(), "c502_5");
    assert!(s502_5("a:b:c"), "s502_5");
    assert!(c502_6(), "c502_6");
    assert!(s502_6("::"), "s502_6");
    assert!(c502_7(), "c502_7");
    assert!(s502_7("  x "), "s502_7");
    assert!(c502_8(), "c502_8");
    assert!(s502_8("12"), "s502_8");
    assert!(c502_9(), "c502_9");
    assert!(s502_9("-5"), "s502_9");
    assert!(c502_10(), "c502_10");
    assert!(s502_10("+7"), "s502_10");
    assert!(c502_11(), "c502_11");
    assert!(s502_11("99999999999999999999"), "s502_11");
    assert!(c502_12(), "c502_12");
    assert!(s502_12("a\u{a}b\u{d}\u{a}c"), "s502_12");
    assert!(c502_13(), "c502_13");
    assert!(s502_13("\u{65e5}\u{672c}"), "s502_13");
    assert!(c502_14(), "c502_14");
    assert!(s502_14("\u{1f600}z"), "s502_14");
    assert!(c502_15(), "c502_15");
    assert!(s502_15("xx"), "s502_15");
    assert!(c503_0(), "c503_0");
    assert!(s503_0(""), "s503_0");
    assert!(c503_1(), "c503_1");
    assert!(s503_1("a"), "s503_1");
    assert!(c503_2(), "c503_2");
    assert!(s503_2("abc"), "s503_2");
    assert!(c503_3(), "c503_3");
    assert!(s503_3("%a1"), "s503_3");
    assert!(c503_4(), "c503_4");
    assert!(s503_4("\u{e9}%x"), "s503_4");
    assert!(c503_5(), "c503_5");
    assert!(s503_5("a:b:c"), "s503_5");
    assert!(c503_6(), "c503_6");
    assert!(s503_6("::"), "s503_6");
    assert!(c503_7(), "c503_7");
    assert!(s503_7("  x "), "s503_7");
    assert!(c503_8(), "c503_8");
    assert!(s503_8("12"), "s503_8");
    assert!(c503_9(), "c503_9");
    assert!(s503_9("-5"), "s503_9");
    assert!(c503_10(), "c503_10");
    assert!(s503_10("+7"), "s503_10");
    assert!(c503_11(), "c503_11");
    assert!(s503_11("99999999999999999999"), "s503_11");
    assert!(c503_12(), "c503_12");
    assert!(s503_12("a\u{a}b\u{d}\u{a}c"), "s503_12");
    assert!(c503_13(), "c503_13");
    assert!(s503_13("\u{65e5}\u{672c}"), "s503_13");
    assert!(c503_14(), "c503_14");
    assert!(s503_14("\u{1f600}z"), "s503_14");
    assert!(c503_15(), "c503_15");
    assert!(s503_15("xx"), "s503_15");
    assert!(c504_0(), "c504_0");
    assert!(s504_0(""), "s504_0");
    assert!(c504_1(), "c504_1");
    assert!(s504_1("a"), "s504_1");
    assert!(c504_2(), "c504_2");
    assert!(s504_2("abc"), "s504_2");
    assert!(c504_3(), "c504_3");
    assert!(s504_3("%a1"), "s504_3");
    assert!(c504_4(), "c504_4");
    assert!(s504_4("\u{e9}%x"), "s504_4");
    assert!(c504_5(), "c504_5");
    assert!(s504_5("a:b:c"), "s504_5");
    assert!(c504_6(), "c504_6");
    assert!(s504_6("::"), "s504_6");
    assert!(c504_7(), "c504_7");
    assert!(s504_7("  x "), "s504_7");
    assert!(c504_8(), "c504_8");
    assert!(s504_8("12"), "s504_8");
    assert!(c504_9(), "c504_9");
    assert!(s504_9("-5"), "s504_9");
    assert!(c504_10(), "c504_10");
    assert!(s504_10("+7"), "s504_10");
    assert!(c504_11(), "c504_11");
    assert!(s504_11("99999999999999999999"), "s504_11");
    assert!(c504_12(), "c504_12");
    assert!(s504_12("a\u{a}b\u{d}\u{a}c"), "s504_12");
    assert!(c504_13(), "c504_13");
    assert!(s504_13("\u{65e5}\u{672c}"), "s504_13");
    assert!(c504_14(), "c504_14");
    assert!(s504_14("\u{1f600}z"), "s504_14");
    assert!(c504_15(), "c504_15");
    assert!(s504_15("xx"), "s504_15");
    assert!(c505_0(), "c505_0");
    assert!(s505_0(""), "s505_0");
    assert!(c505_1(), "c505_1");
    assert!(s505_1("a"), "s505_1");
    assert!(c505_2(), "c505_2");
    assert!(s505_2("abc"), "s505_2");
    assert!(c505_3(), "c505_3");
    assert!(s505_3("%a1"), "s505_3");
    assert!(c505_4(), "c505_4");
    assert!(s505_4("\u{e9}%x"), "s505_4");
    assert!(c505_5(), "c505_5");
    assert!(s505_5("a:b:c"), "s505_5");
    assert!(c505_6(), "c505_6");
    assert!(s505_6("::"), "s505_6");
    assert!(c505_7(), "c505_7");
    assert!(s505_7("  x "), "s505_7");
    assert!(c505_8(), "c505_8");
    assert!(s505_8("12"), "s505_8");
    assert!(c505_9(), "c505_9");
    assert!(s505_9("-5"), "s505_9");
    assert!(c505_10(), "c505_10");
    assert!(s505_10("+7"), "s505_10");
    assert!(c505_11(), "c505_11");
    assert!(s505_11("99999999999999999999"), "s505_11");
    assert!(c505_12(), "c505_12");
    assert!(s505_12("a\u{a}b\u{d}\u{a}c"), "s505_12");
    assert!(c505_13(), "c505_13");
    assert!(s505_13("\u{65e5}\u{672c}"), "s505_13");
    assert!(c505_14(), "c505_14");
    assert!(s505_14("\u{1f600}z"), "s505_14");
    assert!(c505_15(), "c505_15");
    assert!(s505_15("xx"), "s505_15");
    assert!(c506_0(), "c506_0");
    assert!(s506_0(""), "s506_0");
    assert!(c506_1(), "c506_1");
    assert!(s506_1("a"), "s506_1");
    assert!(c506_2(), "c506_2");
    assert!(s506_2("abc"), "s506_2");
    assert!(c506_3(), "c506_3");
    assert!(s506_3("%a1"), "s506_3");
    assert!(c506_4(), "c506_4");
    assert!(s506_4("\u{e9}%x"), "s506_4");
    assert!(c506_5(), "c506_5");
    assert!(s506_5("a:b:c"), "s506_5");
    assert!(c506_6(), "c506_6");
    assert!(s506_6("::"), "s506_6");
    assert!(c506_7(), "c506_7");
    assert!(s506_7("  x "), "s506_7");
    assert!(c506_8(), "c506_8");
    assert!(s506_8("12"), "s506_8");
    assert!(c506_9(), "c506_9");
    assert!(s506_9("-5"), "s506_9");
    assert!(c506_10(), "c506_10");
    assert!(s506_10("+7"), "s506_10");
    assert!(c506_11(), "c506_11");
    assert!(s506_11("99999999999999999999"), "s506_11");
    assert!(c506_12(), "c506_12");
    assert!(s506_12("a\u{a}b\u{d}\u{a}c"), "s506_12");
    assert!(c506_13(), "c506_13");
    assert!(s506_13("\u{65e5}\u{672c}"), "s506_13");
    assert!(c506_14(), "c506_14");
    assert!(s506_14("\u{1f600}z"), "s506_14");
    assert!(c506_15(), "c506_15");
    assert!(s506_15("xx"), "s506_15");
    assert!(c507_0(), "c507_0");
    assert!(s507_0(""), "s507_0");
    assert!(c507_1(), "c507_1");
    assert!(s507_1("a"), "s507_1");
    assert!(c507_2(), "c507_2");
    assert!(s507_2("abc"), "s507_2");
    assert!(c507_3(), "c507_3");
    assert!(s507_3("%a1"), "s507_3");
    assert!(c507_4(), "c507_4");
    assert!(s507_4("\u{e9}%x"), "s507_4");
    assert!(c507_5(), "c507_5");
    assert!(s507_5("a:b:c"), "s507_5");
    assert!(c507_6(), "c507_6");
    assert!(s507_6("::"), "s507_6");
    assert!(c507_7(), "c507_7");
    assert!(s507_7("  x "), "s507_7");
    assert!(c507_8(), "c507_8");
    assert!(s507_8("12"), "s507_8");
    assert!(c507_9(), "c507_9");
    assert!(s507_9("-5"), "s507_9");
    assert!(c507_10(), "c507_10");
    assert!(s507_10("+7"), "s507_10");
    assert!(c507_11(), "c507_11");
    assert!(s507_11("99999999999999999999"), "s507_11");
    assert!(c507_12(), "c507_12");
    assert!(s507_12("a\u{a}b\u{d}\u{a}c"), "s507_12");
    assert!(c507_13(), "c507_13");
    assert!(s507_13("\u{65e5}\u{672c}"), "s507_13");
    assert!(c507_14(), "c507_14");
    assert!(s507_14("\u{1f600}z"), "s507_14");
    assert!(c507_15(), "c507_15");
    assert!(s507_15("xx"), "s507_15");
    assert!(c508_0(), "c508_0");
    assert!(s508_0(""), "s508_0");
    assert!(c508_1(), "c508_1");
    assert!(s508_1("a"), "s508_1");
    assert!(c508_2(), "c508_2");
    assert!(s508_2("abc"), "s508_2");
    assert!(c508_3(), "c508_3");
    assert!(s508_3("%a1"), "s508_3");
    assert!(c508_4(), "c508_4");
    assert!(s508_4("\u{e9}%x"), "s508_4");
    assert!(c508_5(), "c508_5");
    assert!(s508_5("a:b:c"), "s508_5");
    assert!(c508_6(), "c508_6");
    assert!(s508_6("::"), "s508_6");
    assert!(c508_7(), "c508_7");
    assert!(s508_7("  x "), "s508_7");
    assert!(c508_8(), "c508_8");
    assert!(s508_8("12"), "s508_8");
    assert!(c508_9(), "c508_9");
    assert!(s508_9("-5"), "s508_9");
    assert!(c508_10(), "c508_10");
    assert!(s508_10("+7"), "s508_10");
    assert!(c508_11(), "c508_11");
    assert!(s508_11("99999999999999999999"), "s508_11");
    assert!(c508_12(), "c508_12");
    assert!(s508_12("a\u{a}b\u{d}\u{a}c"), "s508_12");
    assert!(c508_13(), "c508_13");
    assert!(s508_13("\u{65e5}\u{672c}"), "s508_13");
    assert!(c508_14(), "c508_14");
    assert!(s508_14("\u{1f600}z"), "s508_14");
    assert!(c508_15(), "c508_15");
    assert!(s508_15("xx"), "s508_15");
    assert!(c509_0(), "c509_0");
    assert!(s509_0(""), "s509_0");
    assert!(c509_1(), "c509_1");
    assert!(s509_1("a"), "s509_1");
    assert!(c509_2(), "c509_2");
    assert!(s509_2("abc"), "s509_2");
    assert!(c509_3(), "c509_3");
    assert!(s509_3("%a1"), "s509_3");
    assert!(c509_4(), "c509_4");
    assert!(s509_4("\u{e9}%x"), "s509_4");
    assert!(c509_5(), "c509_5");
    assert!(s509_5("a:b:c"), "s509_5");
    assert!(c509_6(), "c509_6");
    assert!(s509_6("::"), "s509_6");
    assert!(c509_7(), "c509_7");
    assert!(s509_7("  x "), "s509_7");
    assert!(c509_8(), "c509_8");
    assert!(s509_8("12"), "s509_8");
    assert!(c509_9(), "c509_9");
    assert!(s509_9("-5"), "s509_9");
    assert!(c509_10(), "c509_10");
    assert!(s509_10("+7"), "s509_10");
    assert!(c509_11(), "c509_11");
    assert!(s509_11("99999999999999999999"), "s509_11");
    assert!(c509_12(), "c509_12");
    assert!(s509_12("a\u{a}b\u{d}\u{a}c"), "s509_12");
    assert!(c509_13(), "c509_13");
    assert!(s509_13("\u{65e5}\u{672c}"), "s509_13");
    assert!(c509_14(), "c509_14");
    assert!(s509_14("\u{1f600}z"), "s509_14");
    assert!(c509_15(), "c509_15");
    assert!(s509_15("xx"), "s509_15");
    assert!(c510_0(), "c510_0");
    assert!(s510_0(""), "s510_0");
    assert!(c510_1(), "c510_1");
    assert!(s510_1("a"), "s510_1");
    assert!(c510_2(), "c510_2");
    assert!(s510_2("abc"), "s510_2");
    assert!(c510_3(), "c510_3");
    assert!(s510_3("%a1"), "s510_3");
    assert!(c510_4(), "c510_4");
    assert!(s510_4("\u{e9}%x"), "s510_4");
    assert!(c510_5(), "c510_5");
    assert!(s510_5("a:b:c"), "s510_5");
    assert!(c510_6(), "c510_6");
    assert!(s510_6("::"), "s510_6");
    assert!(c510_7(), "c510_7");
    assert!(s510_7("  x "), "s510_7");
    assert!(c510_8(), "c510_8");
    assert!(s510_8("12"), "s510_8");
    assert!(c510_9(), "c510_9");
    assert!(s510_9("-5"), "s510_9");
    assert!(c510_10(), "c510_10");
    assert!(s510_10("+7"), "s510_10");
    assert!(c510_11(), "c510_11");
    assert!(s510_11("99999999999999999999"), "s510_11");
    assert!(c510_12(), "c510_12");
    assert!(s510_12("a\u{a}b\u{d}\u{a}c"), "s510_12");
    assert!(c510_13(), "c510_13");
    assert!(s510_13("\u{65e5}\u{672c}"), "s510_13");
    assert!(c510_14(), "c510_14");
    assert!(s510_14("\u{1f600}z"), "s510_14");
    assert!(c510_15(), "c510_15");
    assert!(s510_15("xx"), "s510_15");
    assert!(c511_0(), "c511_0");
    assert!(s511_0(""), "s511_0");
    assert!(c511_1(), "c511_1");
    assert!(s511_1("a"), "s511_1");
    assert!(c511_2(), "c511_2");
    assert!(s511_2("abc"), "s511_2");
    assert!(c511_3(), "c511_3");
    assert!(s511_3("%a1"), "s511_3");
    assert!(c511_4(), "c511_4");
    assert!(s511_4("\u{e9}%x"), "s511_4");
    assert!(c511_5(), "c511_5");
    assert!(s511_5("a:b:c"), "s511_5");
    assert!(c511_6(), "c511_6");
    assert!(s511_6("::"), "s511_6");
    assert!(c511_7(), "c511_7");
    assert!(s511_7("  x "), "s511_7");
    assert!(c511_8(), "c511_8");
    assert!(s511_8("12"), "s511_8");
    assert!(c511_9(), "c511_9");
    assert!(s511_9("-5"), "s511_9");
    assert!(c511_10(), "c511_10");
    assert!(s511_10("+7"), "s511_10");
    assert!(c511_11(), "c511_11");
    assert!(s511_11("99999999999999999999"), "s511_11");
    assert!(c511_12(), "c511_12");
    assert!(s511_12("a\u{a}b\u{d}\u{a}c"), "s511_12");
    assert!(c511_13(), "c511_13");
    assert!(s511_13("\u{65e5}\u{672c}"), "s511_13");
    assert!(c511_14(), "c511_14");
    assert!(s511_14("\u{1f600}z"), "s511_14");
    assert!(c511_15(), "c511_15");
    assert!(s511_15("xx"), "s511_15");
    assert!(c512_0(), "c512_0");
    assert!(s512_0(""), "s512_0");
    assert!(c512_1(), "c512_1");
    assert!(s512_1("a"), "s512_1");
    assert!(c512_2(), "c512_2");
    assert!(s512_2("abc"), "s512_2");
    assert!(c512_3(), "c512_3");
    assert!(s512_3("%a1"), "s512_3");
    assert!(c512_4(), "c512_4");
    assert!(s512_4("\u{e9}%x"), "s512_4");
    assert!(c512_5(), "c512_5");
    assert!(s512_5("a:b:c"), "s512_5");
    assert!(c512_6(), "c512_6");
    assert!(s512_6("::"), "s512_6");
    assert!(c512_7(), "c512_7");
    assert!(s512_7("  x "), "s512_7");
    assert!(c512_8(), "c512_8");
    assert!(s512_8("12"), "s512_8");
    assert!(c512_9(), "c512_9");
    assert!(s512_9("-5"), "s512_9");
    assert!(c512_10(), "c512_10");
    assert!(s512_10("+7"), "s512_10");
    assert!(c512_11(), "c512_11");
    assert!(s512_11("99999999999999999999"), "s512_11");
    assert!(c512_12(), "c512_12");
    assert!(s512_12("a\u{a}b\u{d}\u{a}c"), "s512_12");
    assert!(c512_13(), "c512_13");
    assert!(s512_13("\u{65e5}\u{672c}"), "s512_13");
    assert!(c512_14(), "c512_14");
    assert!(s512_14("\u{1f600}z"), "s512_14");
    assert!(c512_15(), "c512_15");
    assert!(s512_15("xx"), "s512_15");
    assert!(c513_0(), "c513_0");
    assert!(s513_0(""), "s513_0");
    assert!(c513_1(), "c513_1");
    assert!(s513_1("a"), "s513_1");
    assert!(c513_2(), "c513_2");
    assert!(s513_2("abc"), "s513_2");
    assert!(c513_3(), "c513_3");
    assert!(s513_3("%a1"), "s513_3");
    assert!(c513_4(), "c513_4");
    assert!(s513_4("\u{e9}%x"), "s513_4");
    assert!(c513_5(), "c513_5");
    assert!(s513_5("a:b:c"), "s513_5");
    assert!(c513_6(), "c513_6");
    assert!(s513_6("::"), "s513_6");
    assert!(c513_7(), "c513_7");
    assert!(s513_7("  x "), "s513_7");
    assert!(c513_8(), "c513_8");
    assert!(s513_8("12"), "s513_8");
    assert!(c513_9(), "c513_9");
    assert!(s513_9("-5"), "s513_9");
    assert!(c513_10(), "c513_10");
    assert!(s513_10("+7"), "s513_10");
    assert!(c513_11(), "c513_11");
    assert!(s513_11("99999999999999999999"), "s513_11");
    assert!(c513_12(), "c513_12");
    assert!(s513_12("a\u{a}b\u{d}\u{a}c"), "s513_12");
    assert!(c513_13(), "c513_13");
    assert!(s513_13("\u{65e5}\u{672c}"), "s513_13");
    assert!(c513_14(), "c513_14");
    assert!(s513_14("\u{1f600}z"), "s513_14");
    assert!(c513_15(), "c513_15");
    assert!(s513_15("xx"), "s513_15");
    assert!(c514_0(), "c514_0");
    assert!(s514_0(""), "s514_0");
    assert!(c514_1(), "c514_1");
    assert!(s514_1("a"), "s514_1");
    assert!(c514_2(), "c514_2");
    assert!(s514_2("abc"), "s514_2");
    assert!(c514_3(), "c514_3");
    assert!(s514_3("%a1"), "s514_3");
    assert!(c514_4(), "c514_4");
    assert!(s514_4("\u{e9}%x"), "s514_4");
    assert!(c514_5(), "c514_5");
    assert!(s514_5("a:b:c"), "s514_5");
    assert!(c514_6(), "c514_6");
    assert!(s514_6("::"), "s514_6");
    assert!(c514_7(), "c514_7");
    assert!(s514_7("  x "), "s514_7");
    assert!(c514_8(), "c514_8");
    assert!(s514_8("12"), "s514_8");
    assert!(c514_9(), "c514_9");
    assert!(s514_9("-5"), "s514_9");
    assert!(c514_10(), "c514_10");
    assert!(s514_10("+7"), "s514_10");
    assert!(c514_11(), "c514_11");
    assert!(s514_11("99999999999999999999"), "s514_11");
    assert!(c514_12(), "c514_12");
    assert!(s514_12("a\u{a}b\u{d}\u{a}c"), "s514_12");
    assert!(c514_13(), "c514_13");
    assert!(s514_13("\u{65e5}\u{672c}"), "s514_13");
    assert!(c514_14(), "c514_14");
    assert!(s514_14("\u{1f600}z"), "s514_14");
    assert!(c514_15(), "c514_15");
    assert!(s514_15("xx"), "s514_15");
    assert!(c515_0(), "c515_0");
    assert!(s515_0(""), "s515_0");
    assert!(c515_1(), "c515_1");
    assert!(s515_1("a"), "s515_1");
    assert!(c515_2(), "c515_2");
    assert!(s515_2("abc"), "s515_2");
    assert!(c515_3(), "c515_3");
    assert!(s515_3("%a1"), "s515_3");
    assert!(c515_4(), "c515_4");
    assert!(s515_4("\u{e9}%x"), "s515_4");
    assert!(c515_5(), "c515_5");
    assert!(s515_5("a:b:c"), "s515_5");
    assert!(c515_6(), "c515_6");
    assert!(s515_6("::"), "s515_6");
    assert!(c515_7(), "c515_7");
    assert!(s515_7("  x "), "s515_7");
    assert!(c515_8(), "c515_8");
    assert!(s515_8("12"), "s515_8");
    assert!(c515_9(), "c515_9");
    assert!(s515_9("-5"), "s515_9");
    assert!(c515_10(), "c515_10");
    assert!(s515_10("+7"), "s515_10");
    assert!(c515_11(), "c515_11");
    assert!(s515_11("99999999999999999999"), "s515_11");
    assert!(c515_12(), "c515_12");
    assert!(s515_12("a\u{a}b\u{d}\u{a}c"), "s515_12");
    assert!(c515_13(), "c515_13");
    assert!(s515_13("\u{65e5}\u{672c}"), "s515_13");
    assert!(c515_14(), "c515_14");
    assert!(s515_14("\u{1f600}z"), "s515_14");
    assert!(c515_15(), "c515_15");
    assert!(s515_15("xx"), "s515_15");
    assert!(c516_0(), "c516_0");
    assert!(s516_0(""), "s516_0");
    assert!(c516_1(), "c516_1");
    assert!(s516_1("a"), "s516_1");
    assert!(c516_2(), "c516_2");
    assert!(s516_2("abc"), "s516_2");
    assert!(c516_3(), "c516_3");
    assert!(s516_3("%a1"), "s516_3");
    assert!(c516_4(), "c516_4");
    assert!(s516_4("\u{e9}%x"), "s516_4");
    assert!(c516_5(), "c516_5");
    assert!(s516_5("a:b:c"), "s516_5");
    assert!(c516_6(), "c516_6");
    assert!(s516_6("::"), "s516_6");
    assert!(c516_7(), "c516_7");
    assert!(s516_7("  x "), "s516_7");
    assert!(c516_8(), "c516_8");
    assert!(s516_8("12"), "s516_8");
    assert!(c516_9(), "c516_9");
    assert!(s516_9("-5"), "s516_9");
    assert!(c516_10(), "c516_10");
    assert!(s516_10("+7"), "s516_10");
    assert!(c516_11(), "c516_11");
    assert!(s516_11("99999999999999999999"), "s516_11");
    assert!(c516_12(), "c516_12");
    assert!(s516_12("a\u{a}b\u{d}\u{a}c"), "s516_12");
    assert!(c516_13(), "c516_13");
    assert!(s516_13("\u{65e5}\u{672c}"), "s516_13");
    assert!(c516_14(), "c516_14");
    assert!(s516_14("\u{1f600}z"), "s516_14");
    assert!(c516_15(), "c516_15");
    assert!(s516_15("xx"), "s516_15");
    assert!(c517_0(), "c517_0");
    assert!(s517_0(""), "s517_0");
    assert!(c517_1(), "c517_1");
    assert!(s517_1("a"), "s517_1");
    assert!(c517_2(), "c517_2");
    assert!(s517_2("abc"), "s517_2");
    assert!(c517_3(), "c517_3");
    assert!(s517_3("%a1"), "s517_3");
    assert!(c517_4(), "c517_4");
    assert!(s517_4("\u{e9}%x"), "s517_4");
    assert!(c517_5(), "c517_5");
    assert!(s517_5("a:b:c"), "s517_5");
    assert!(c517_6(), "c517_6");
    assert!(s517_6("::"), "s517_6");
    assert!(c517_7(), "c517_7");
    assert!(s517_7("  x "), "s517_7");
    assert!(c517_8(), "c517_8");
    assert!(s517_8("12"), "s517_8");
    assert!(c517_9(), "c517_9");
    assert!(s517_9("-5"), "s517_9");
    assert!(c517_10(), "c517_10");
    assert!(s517_10("+7"), "s517_10");
    assert!(c517_11(), "c517_11");
    assert!(s517_11("99999999999999999999"), "s517_11");
    assert!(c517_12(), "c517_12");
    assert!(s517_12("a\u{a}b\u{d}\u{a}c"), "s517_12");
    assert!(c517_13(), "c517_13");
    assert!(s517_13("\u{65e5}\u{672c}"), "s517_13");
    assert!(c517_14(), "c517_14");
    assert!(s517_14("\u{1f600}z"), "s517_14");
    assert!(c517_15(), "c517_15");
    assert!(s517_15("xx"), "s517_15");
    assert!(c518_0(), "c518_0");
    assert!(s518_0(""), "s518_0");
    assert!(c518_1(), "c518_1");
    assert!(s518_1("a"), "s518_1");
    assert!(c518_2(), "c518_2");
    assert!(s518_2("abc"), "s518_2");
    assert!(c518_3(), "c518_3");
    assert!(s518_3("%a1"), "s518_3");
    assert!(c518_4(), "c518_4");
    assert!(s518_4("\u{e9}%x"), "s518_4");
    assert!(c518_5(), "c518_5");
    assert!(s518_5("a:b:c"), "s518_5");
    assert!(c518_6(), "c518_6");
    assert!(s518_6("::"), "s518_6");
    assert!(c518_7(), "c518_7");
    assert!(s518_7("  x "), "s518_7");
    assert!(c518_8(), "c518_8");
    assert!(s518_8("12"), "s518_8");
    assert!(c518_9(), "c518_9");
    assert!(s518_9("-5"), "s518_9");
    assert!(c518_10(), "c518_10");
    assert!(s518_10("+7"), "s518_10");
    assert!(c518_11(), "c518_11");
    assert!(s518_11("99999999999999999999"), "s518_11");
    assert!(c518_12(), "c518_12");
    assert!(s518_12("a\u{a}b\u{d}\u{a}c"), "s518_12");
    assert!(c518_13(), "c518_13");
    assert!(s518_13("\u{65e5}\u{672c}"), "s518_13");
    assert!(c518_14(), "c518_14");
    assert!(s518_14("\u{1f600}z"), "s518_14");
    assert!(c518_15(), "c518_15");
    assert!(s518_15("xx"), "s518_15");
    assert!(c519_0(), "c519_0");
    assert!(s519_0(""), "s519_0");
    assert!(c519_1(), "c519_1");
    assert!(s519_1("a"), "s519_1");
    assert!(c519_2(), "c519_2");
    assert!(s519_2("abc"), "s519_2");
    assert!(c519_3(), "c519_3");
    assert!(s519_3("%a1"), "s519_3");
    assert!(c519_4(), "c519_4");
    assert!(s519_4("\u{e9}%x"), "s519_4");
    assert!(c519_5(), "c519_5");
    assert!(s519_5("a:b:c"), "s519_5");
    assert!(c519_6(), "c519_6");
    assert!(s519_6("::"), "s519_6");
    assert!(c519_7(), "c519_7");
    assert!(s519_7("  x "), "s519_7");
    assert!(c519_8(), "c519_8");
    assert!(s519_8("12"), "s519_8");
    assert!(c519_9(), "c519_9");
    assert!(s519_9("-5"), "s519_9");
    assert!(c519_10(), "c519_10");
    assert!(s519_10("+7"), "s519_10");
    assert!(c519_11(), "c519_11");
    assert!(s519_11("99999999999999999999"), "s519_11");
    assert!(c519_12(), "c519_12");
    assert!(s519_12("a\u{a}b\u{d}\u{a}c"), "s519_12");
    assert!(c519_13(), "c519_13");
    assert!(s519_13("\u{65e5}\u{672c}"), "s519_13");
    assert!(c519_14(), "c519_14");
    assert!(s519_14("\u{1f600}z"), "s519_14");
    assert!(c519_15(), "c519_15");
    assert!(s519_15("xx"), "s519_15");
    assert!(c520_0(), "c520_0");
    assert!(c520_1(), "c520_1");
    assert!(c520_2(), "c520_2");
    assert!(c521_0(), "c521_0");
    assert!(c521_1(), "c521_1");
    assert!(c521_2(), "c521_2");
    assert!(c522_0(), "c522_0");
    assert!(c522_1(), "c522_1");
    assert!(c522_2(), "c522_2");
    assert!(c523_0(), "c523_0");
    assert!(c523_1(), "c523_1");
    assert!(c523_2(), "c523_2");
    assert!(c524_0(), "c524_0");
    assert!(c524_1(), "c524_1");
    assert!(c524_2(), "c524_2");
    assert!(c524_3(), "c524_3");
    assert!(c525_0(), "c525_0");
    assert!(c525_1(), "c525_1");
    assert!(c525_2(), "c525_2");
    assert!(c525_3(), "c525_3");
    assert!(c526_0(), "c526_0");
    assert!(c526_1(), "c526_1");
    assert!(c526_2(), "c526_2");
    assert!(c526_3(), "c526_3");
    assert!(c527_0(), "c527_0");
    assert!(c527_1(), "c527_1");
    assert!(c527_2(), "c527_2");
    assert!(c527_3(), "c527_3");
    assert!(c528_0(), "c528_0");
    assert!(s528_0('a'), "s528_0");
    assert!(c528_1(), "c528_1");
    assert!(s528_1('Z'), "s528_1");
    assert!(c528_2(), "c528_2");
    assert!(s528_2('0'), "s528_2");
    assert!(c528_3(), "c528_3");
    assert!(s528_3('_'), "s528_3");
    assert!(c528_4(), "c528_4");
    assert!(s528_4(' '), "s528_4");
    assert!(c528_5(), "c528_5");
    assert!(s528_5('\n'), "s528_5");
    assert!(c528_6(), "c528_6");
    assert!(s528_6('\u{e9}'), "s528_6");
    assert!(c528_7(), "c528_7");
    assert!(s528_7('\u{1f600}'), "s528_7");
    assert!(c528_8(), "c528_8");
    assert!(s528_8('\u{663}'), "s528_8");
    assert!(c528_9(), "c528_9");
    assert!(s528_9('\u{2028}'), "s528_9");
    assert!(c528_10(), "c528_10");
    assert!(s528_10(':'), "s528_10");
    assert!(c529_0(), "c529_0");
    assert!(s529_0('a'), "s529_0");
    assert!(c529_1(), "c529_1");
    assert!(s529_1('Z'), "s529_1");
    assert!(c529_2(), "c529_2");
    assert!(s529_2('0'), "s529_2");
    assert!(c529_3(), "c529_3");
    assert!(s529_3('_'), "s529_3");
    assert!(c529_4(), "c529_4");
    assert!(s529_4(' '), "s529_4");
    assert!(c529_5(), "c529_5");
    assert!(s529_5('\n'), "s529_5");
    assert!(c529_6(), "c529_6");
    assert!(s529_6('\u{e9}'), "s529_6");
    assert!(c529_7(), "c529_7");
    assert!(s529_7('\u{1f600}'), "s529_7");
    assert!(c529_8(), "c529_8");
    assert!(s529_8('\u{663}'), "s529_8");
    assert!(c529_9(), "c529_9");
    assert!(s529_9('\u{2028}'), "s529_9");
    assert!(c529_10(), "c529_10");
    assert!(s529_10(':'), "s529_10");
    assert!(c530_0(), "c530_0");
    assert!(s530_0('a'), "s530_0");
    assert!(c530_1(), "c530_1");
    assert!(s530_1('Z'), "s530_1");
    assert!(c530_2(), "c530_2");
    assert!(s530_2('0'), "s530_2");
    assert!(c530_3(), "c530_3");
    assert!(s530_3('_'), "s530_3");
    assert!(c530_4(), "c530_4");
    assert!(s530_4(' '), "s530_4");
    assert!(c530_5(), "c530_5");
    assert!(s530_5('\n'), "s530_5");
    assert!(c530_6(), "c530_6");
    assert!(s530_6('\u{e9}'), "s530_6");
    assert!(c530_7(), "c530_7");
    assert!(s530_7('\u{1f600}'), "s530_7");
    assert!(c530_8(), "c530_8");
    assert!(s530_8('\u{663}'), "s530_8");
    assert!(c530_9(), "c530_9");
    assert!(s530_9('\u{2028}'), "s530_9");
    assert!(c530_10(), "c530_10");
    assert!(s530_10(':'), "s530_10");
    assert!(c531_0(), "c531_0");
    assert!(s531_0('a'), "s531_0");
    assert!(c531_1(), "c531_1");
    assert!(s531_1('Z'), "s531_1");
    assert!(c531_2(), "c531_2");
    assert!(s531_2('0'), "s531_2");
    assert!(c531_3(), "c531_3");
    assert!(s531_3('_'), "s531_3");
    assert!(c531_4(), "c531_4");
    assert!(s531_4(' '), "s531_4");
    assert!(c531_5(), "c531_5");
    assert!(s531_5('\n'), "s531_5");
    assert!(c531_6(), "c531_6");
    assert!(s531_6('\u{e9}'), "s531_6");
    assert!(c531_7(), "c531_7");
    assert!(s531_7('\u{1f600}'), "s531_7");
    assert!(c531_8(), "c531_8");
    assert!(s531_8('\u{663}'), "s531_8");
    assert!(c531_9(), "c531_9");
    assert!(s531_9('\u{2028}'), "s531_9");
    assert!(c531_10(), "c531_10");
    assert!(s531_10(':'), "s531_10");
    assert!(c532_0(), "c532_0");
    assert!(s532_0('a'), "s532_0");
    assert!(c532_1(), "c532_1");
    assert!(s532_1('Z'), "s532_1");
    assert!(c532_2(), "c532_2");
    assert!(s532_2('0'), "s532_2");
    assert!(c532_3(), "c532_3");
    assert!(s532_3('_'), "s532_3");
    assert!(c532_4(), "c532_4");
    assert!(s532_4(' '), "s532_4");
    assert!(c532_5(), "c532_5");
    assert!(s532_5('\n'), "s532_5");
    assert!(c532_6(), "c532_6");
    assert!(s532_6('\u{e9}'), "s532_6");
    assert!(c532_7(), "c532_7");
    assert!(s532_7('\u{1f600}'), "s532_7");
    assert!(c532_8(), "c532_8");
    assert!(s532_8('\u{663}'), "s532_8");
    assert!(c532_9(), "c532_9");
    assert!(s532_9('\u{2028}'), "s532_9");
    assert!(c532_10(), "c532_10");
    assert!(s532_10(':'), "s532_10");
    assert!(c533_0(), "c533_0");
    assert!(s533_0('a'), "s533_0");
    assert!(c533_1(), "c533_1");
    assert!(s533_1('Z'), "s533_1");
    assert!(c533_2(), "c533_2");
    assert!(s533_2('0'), "s533_2");
    assert!(c533_3(), "c533_3");
    assert!(s533_3('_'), "s533_3");
    assert!(c533_4(), "c533_4");
    assert!(s533_4(' '), "s533_4");
    assert!(c533_5(), "c533_5");
    assert!(s533_5('\n'), "s533_5");
    assert!(c533_6(), "c533_6");
    assert!(s533_6('\u{e9}'), "s533_6");
    assert!(c533_7(), "c533_7");
    assert!(s533_7('\u{1f600}'), "s533_7");
    assert!(c533_8(), "c533_8");
    assert!(s533_8('\u{663}'), "s533_8");
    assert!(c533_9(), "c533_9");
    assert!(s533_9('\u{2028}'), "s533_9");
    assert!(c533_10(), "c533_10");
    assert!(s533_10(':'), "s533_10");
    assert!(c534_0(), "c534_0");
    assert!(s534_0(0), "s534_0");
    assert!(c534_1(), "c534_1");
    assert!(s534_1(1), "s534_1");
    assert!(c534_2(), "c534_2");
    assert!(s534_2(200), "s534_2");
    assert!(c534_3(), "c534_3");
    assert!(s534_3(255), "s534_3");
    assert!(c535_0(), "c535_0");
    assert!(s535_0(0), "s535_0");
    assert!(c535_1(), "c535_1");
    assert!(s535_1(1), "s535_1");
    assert!(c535_2(), "c535_2");
    assert!(s535_2(200), "s535_2");
    assert!(c535_3(), "c535_3");
    assert!(s535_3(255), "s535_3");
    assert!(c536_0(), "c536_0");
    assert!(s536_0(0), "s536_0");
    assert!(c536_1(), "c536_1");
    assert!(s536_1(1), "s536_1");
    assert!(c536_2(), "c536_2");
    assert!(s536_2(200), "s536_2");
    assert!(c536_3(), "c536_3");
    assert!(s536_3(255), "s536_3");
    assert!(c537_0(), "c537_0");
    assert!(s537_0(0), "s537_0");
    assert!(c537_1(), "c537_1");
    assert!(s537_1(1), "s537_1");
    assert!(c537_2(), "c537_2");
    assert!(s537_2(200), "s537_2");
    assert!(c537_3(), "c537_3");
    assert!(s537_3(255), "s537_3");
}
