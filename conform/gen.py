#!/usr/bin/env python3
"""Writes src/lib.rs: small functions over constants whose value is known from a run of the real code (std, ropey, ...).
`python3 gen.py` needs rustc and is only run by hand; the result is committed.  See run.py for what it is for."""
import itertools
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
T = []          # (result type, expression, {param: (type, [values])})


def t(ty, ex, **ps): T.append((ty, ex, ps))


def rs(s): return '"' + "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else "\\u{%x}" % ord(c) for c in s) + '"'


STR = ("&str", [rs(x) for x in ["", "a", "abc", "%a1", "\u00e9%x", "a:b:c", "::", "  x ", "12", "-5", "+7", "99999999999999999999", "a\nb\r\nc", "\u65e5\u672c", "\U0001F600z", "xx"]])
PAT = ("&str", [rs(x) for x in ["a", ":", "x", "b:", "zz"]])
NUM = ("&str", [rs(x) for x in ["", "0", "007", "12", "-5", "+7", "-", "+", "--1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", " 1", "1a", "\u0663"]])
VEC = ("Vec<i64>", ["vec![]", "vec![3]", "vec![1, 2, 3]", "vec![5, 5, -1, 2]", "vec![2, 4, 6, 8, 10]"])
SV = ("Vec<String>", ["vec![]", 'vec!["a".to_string()]', 'vec!["b".to_string(), "".to_string(), "a".to_string()]'])
N = ("usize", ["0", "1", "2", "3", "7"])
I64 = ("i64", ["0", "1", "-1", "41", "i64::MAX", "i64::MIN", "i64::MAX - 1"])
U32 = ("u32", ["0", "1", "7", "u32::MAX"])
U8 = ("u8", ["0", "1", "200", "255"])
OPT = ("Option<i64>", ["None", "Some(0)", "Some(3)", "Some(-4)"])
RES = ("Result<i64, String>", ["Ok(0)", "Ok(3)", 'Err("bad".to_string())'])
B = ("bool", ["true", "false"])
CH = ("char", ["'a'", "'Z'", "'0'", "'_'", "' '", "'\\n'", "'\\u{e9}'", "'\\u{1f600}'", "'\\u{663}'", "'\\u{2028}'", "':'"])

# ---- str
for e in ["s.len()", "s.chars().count()", "s.lines().count()", "s.split(':').count()", "s.split_whitespace().count()", "s.bytes().len()", "s.to_uppercase().len()"]: t("usize", e, s=STR)
for e in ["s.is_empty()", "s.starts_with('a')", "s.ends_with('a')", "s.contains('a')", "s.starts_with(':')", "s.starts_with(char::is_numeric)", "s.ends_with(|c: char| c == 'c')",
          "s.chars().all(|c| c.is_ascii_digit())", "s.chars().any(|c| c == ':')", "s == \"abc\"", "s != \"a\"", "s < \"b\"", "s.chars().next().is_some()"]: t("bool", e, s=STR)
for e in ["s.starts_with(p)", "s.ends_with(p)", "s.contains(p)", "s == p"]: t("bool", e, s=STR, p=PAT)
for e in ["s.find(p)", "s.rfind(p)"]: t("Option<usize>", e, s=STR, p=PAT)
for e in ["s.find(':')", "s.rfind(':')", "s.find(char::is_numeric)"]: t("Option<usize>", e, s=STR)
for e in ["s.strip_prefix(p)", "s.strip_suffix(p)", "s.split(p).next()", "s.rsplit(p).next()"]: t("Option<&str>", e, s=STR, p=PAT)
for e in ["s.strip_prefix('%')", "s.strip_prefix(':')", "s.get(1..)", "s.get(0..2)", "s.split(':').last()", "s.rsplit(':').next()", "s.split(':').nth(1)", "s.lines().next()"]: t("Option<&str>", e, s=STR)
for e in ["s.split_once(':')", "s.rsplit_once(':')"]: t("Option<(&str, &str)>", e, s=STR)
for e in ["s.split_once(p)", "s.rsplit_once(p)"]: t("Option<(&str, &str)>", e, s=STR, p=PAT)
for e in ["s.trim()", "s.trim_start()", "s.trim_end()", "s.trim_start_matches('a')", "s.trim_end_matches(char::is_numeric)", "s.trim_start_matches(':')", "s.trim_end_matches(|c: char| c.is_numeric())"]: t("&str", e, s=STR)
for e in ["s.to_string()", "s.to_owned()", "String::from(s)", "s.replace('a', \"zz\")", "s.replace(\"a\", \"\")", "format!(\"<{}>\", s)", "format!(\"{s}:{}\", s.len())", "s.chars().filter(|c| *c != 'a').collect::<String>()",
          "s.chars().take(2).collect::<String>()", "s.chars().skip(1).collect::<String>()", "s.chars().map(|c| if c == ':' { '.' } else { c }).collect::<String>()",
          "{ let mut r = String::new(); for c in s.chars() { if c == 'b' { r.push('\\\\'); } r.push(c); } r }",
          "{ let mut r = s.to_string(); r.push('x'); r.push_str(\"yz\"); r }",
          "s.split(':').map(|x| x.to_string()).collect::<Vec<_>>().join(\"-\")", "s.split(':').collect::<Vec<_>>().concat()", "s.to_lowercase()"]: t("String", e, s=STR)
t("Vec<String>", "s.split(':').map(|x| x.to_string()).collect()", s=STR)
t("Vec<String>", "s.rsplit(':').map(|x| x.to_string()).collect()", s=STR)
t("Vec<String>", "s.split(p).map(String::from).collect()", s=STR, p=PAT)
t("Vec<char>", "s.chars().collect()", s=STR)
t("Vec<char>", "s.chars().rev().collect()", s=STR)
t("Vec<usize>", "s.char_indices().map(|(i, _)| i).collect()", s=STR)
t("Vec<usize>", "s.chars().enumerate().filter(|(_, c)| *c == ':').map(|(i, _)| i).collect()", s=STR)
for e in ["s.parse::<i64>().ok()", "s.parse::<i64>().ok().and_then(|x| x.checked_add(1))", "s.parse::<u32>().ok().map(|x| x as i64)", "s.parse::<u64>().ok().map(|x| (x / 2) as i64)"]: t("Option<i64>", e, s=NUM)
t("bool", "s.parse::<usize>().is_err()", s=NUM)
# ---- char
for e in ["c.is_alphabetic()", "c.is_alphanumeric()", "c.is_numeric()", "c.is_whitespace()", "c.is_ascii_digit()", "c.is_ascii()", "c.is_ascii_alphabetic()", "c.is_ascii_alphanumeric()", "c.is_digit(10)", "c.is_digit(16)",
          "c.is_ascii_hexdigit()", "matches!(c, 'a'..='z' | '_')", "\"a:\".contains(c)", "c < 'b'"]: t("bool", e, c=CH)
t("usize", "c.len_utf8()", c=CH)
t("String", "c.to_string()", c=CH)
t("u32", "c as u32", c=CH)
# ---- integers
for op in ["checked_add", "checked_sub", "checked_mul"]: t("Option<i64>", f"a.{op}(b)", a=I64, b=("i64", ["1", "-1", "2", "i64::MAX", "i64::MIN"]))
for op in ["saturating_add", "saturating_sub", "saturating_mul"]: t("i64", f"a.{op}(b)", a=I64, b=("i64", ["1", "-1", "i64::MIN"]))
for op in ["checked_add", "checked_sub", "checked_mul"]: t("Option<u32>", f"a.{op}(b)", a=U32, b=U32)
for op in ["saturating_sub", "saturating_add", "max", "min", "abs_diff"]: t("u32", f"a.{op}(b)", a=U32, b=U32)
for e in ["a.checked_neg()", "a.checked_abs()"]: t("Option<i64>", e, a=I64)
for e in ["a.unsigned_abs()", "a as u64", "(a as u64) >> 1"]: t("u64", e, a=I64)
for e in ["a as u32", "a as u8 as u32", "a as i32 as u32"]: t("u32", e, a=I64)
for e in ["a.signum()", "a / 2", "a % 3", "a.wrapping_add(1)", "a.min(5)", "a.clamp(-1, 7)"]: t("i64", e, a=I64)
for e in ["a.is_negative()", "a.is_positive()", "a == 41", "a >= 0 && a < 42", "a < 0 || a > 41", "!(a > 0)"]: t("bool", e, a=I64)
t("bool", "u8::try_from(a).is_ok()", a=I64)
t("Option<u32>", "u32::try_from(a).ok()", a=I64)
t("Option<i64>", "i64::try_from(a).ok()", a=("u64", ["0", "9", "u64::MAX"]))
t("u8", "a & 15", a=U8); t("u8", "a | 1", a=U8); t("u8", "a ^ 3", a=U8); t("u8", "a >> 2", a=U8); t("u8", "a << 1", a=U8)
for f in ["{}", "{:?}", "[{}]"]: t("String", f'format!("{f}", a)', a=I64)
t("String", 'format!("{}{}", a, b)', a=U32, b=B)
t("String", 'format!("{:x}", a)', a=U32); t("String", 'format!("{a:03}")', a=U32)
# ---- options, results
for e in ["o.map(|x| x + 1)", "o.filter(|x| *x > 0)", "o.and_then(|x| if x == 0 { None } else { Some(x * 2) })", "o.or(Some(9))", "o.or_else(|| Some(8))", "o.xor(Some(1))", "o.as_ref().map(|x| *x)", "o.iter().next().copied()",
          "{ let mut p = o; p.take() }", "{ let mut p = o; p.replace(4) }", "Some(o?)", "o.zip(Some(1)).map(|(a, b)| a + b)", "o.into_iter().next()"]: t("Option<i64>", ("(|| -> Option<i64> { %s })()" % e) if "?" in e else e, o=OPT)
for e in ["o.unwrap_or(7)", "o.unwrap_or_default()", "o.unwrap_or_else(|| -1)", "o.map_or(5, |x| x - 1)", "o.map_or_else(|| 6, |x| x + 6)", "match o { Some(x) if x > 0 => 1, Some(_) => 2, None => 3 }", "if let Some(x) = o { x } else { 100 }",
          "{ let Some(x) = o else { return 1000 }; x }", "o.iter().sum::<i64>()"]: t("i64", ("(|| { %s })()" % e) if "return" in e else e, o=OPT)
for e in ["o.is_some()", "o.is_none()", "o.is_some_and(|x| x > 0)", "o == Some(3)", "o != None", "o > Some(0)", "o.ok_or(1).is_err()", "o.iter().count() == 0", "matches!(o, Some(x) if x != 3)"]: t("bool", e, o=OPT)
for e in ["r.clone().ok()", "r.clone().map(|x| x + 1).ok()", "r.clone().and_then(|x| if x > 0 { Ok(x) } else { Err(String::new()) }).ok()", "r.as_ref().ok().copied()", "(|| Some(r.clone().ok()?))()"]: t("Option<i64>", e, r=RES)
for e in ["r.clone().unwrap_or(7)", "r.clone().unwrap_or_default()", "r.clone().unwrap_or_else(|e| e.len() as i64)", "match r { Ok(x) => x, Err(e) => -(e.len() as i64) }"]: t("i64", e, r=RES)
for e in ["r.is_ok()", "r.is_err()", "r.is_ok_and(|x| x == 3)", "r.clone().map_err(|e| e.len()) == Err(3)"]: t("bool", e, r=RES)
t("Option<String>", "r.err()", r=RES)
t("Option<i64>", "b.then(|| 3)", b=B); t("Option<i64>", "b.then_some(4)", b=B)
t("Option<Vec<i64>>", "v.iter().map(|x| if *x > 4 { None } else { Some(*x) }).collect::<Option<Vec<_>>>()", v=VEC)
t("Result<Vec<i64>, String>", "v.iter().map(|x| if *x > 4 { Err(format!(\"{x}\")) } else { Ok(*x) }).collect::<Result<Vec<_>, String>>()", v=VEC)
# ---- vectors and iterators
for e in ["v.len()", "v.iter().count()", "v.iter().filter(|x| **x > 2).count()", "v.iter().flat_map(|x| vec![*x; 1]).count()"]: t("usize", e, v=VEC)
for e in ["v.first().copied()", "v.last().copied()", "v.get(1).copied()", "v.iter().next().copied()", "v.iter().last().copied()", "v.iter().max().copied()", "v.iter().min().copied()", "v.iter().find(|x| **x > 2).copied()",
          "v.iter().rev().find(|x| **x > 2).copied()", "v.iter().find_map(|x| if *x > 2 { Some(x * 10) } else { None })", "v.iter().nth(2).copied()", "{ let mut w = v.clone(); w.pop() }", "v.iter().copied().reduce(|a, b| a + b)",
          "v.iter().skip(1).next().copied()", "v.iter().rev().next().copied()", "v.iter().min_by_key(|x| (**x - 3).abs()).copied()", "v.iter().max_by_key(|x| **x % 3).copied()", "v.split_first().map(|(a, _)| *a)",
          "{ let mut r = None; for x in &v { if *x > 2 { r = Some(*x); break; } } r }", "{ let mut r = None; for x in &v { if *x > 2 { r = Some(*x); } } r }"]: t("Option<i64>", e, v=VEC)
for e in ["v.iter().position(|x| *x == 2)", "v.iter().rposition(|x| *x == 5)", "v.iter().enumerate().find(|(_, x)| **x < 3).map(|(i, _)| i)"]: t("Option<usize>", e, v=VEC)
for e in ["v.is_empty()", "v.contains(&2)", "v.iter().any(|x| *x > 4)", "v.iter().all(|x| *x > 0)", "v == vec![1, 2, 3]", "v.iter().eq([3].iter())", "v.starts_with(&[1])", "v.windows(2).any(|w| w[0] == w[1])",
          "{ let mut seen = false; for x in v.iter() { seen |= *x == 2; } seen }"]: t("bool", e, v=VEC)
for e in ["v.iter().map(|x| x * 2).collect()", "v.iter().filter(|x| **x > 2).copied().collect()", "v.iter().rev().copied().collect()", "v.iter().skip(1).copied().collect()", "v.iter().take(2).copied().collect()",
          "v.iter().enumerate().map(|(i, x)| i as i64 + x).collect()", "v.iter().filter_map(|x| if x % 2 == 0 { Some(x / 2) } else { None }).collect()", "v.iter().flat_map(|x| vec![*x, -*x]).collect()",
          "v.iter().chain([7].iter()).copied().collect()", "v.iter().copied().chain(std::iter::once(4)).collect()", "v.iter().zip(v.iter().skip(1)).map(|(a, b)| b - a).collect()", "v.windows(2).map(|w| w[0] + w[1]).collect()",
          "v.iter().take_while(|x| **x < 4).copied().collect()", "v.iter().skip_while(|x| **x < 3).copied().collect()", "v.iter().step_by(2).copied().collect()", "v.iter().scan(0, |s, x| { *s += x; Some(*s) }).collect()",
          "{ let mut w = v.clone(); w.push(9); w }", "{ let mut w = v.clone(); w.insert(0, 9); w }", "{ let mut w = v.clone(); w.extend(vec![1, 2]); w }", "{ let mut w = v.clone(); w.extend_from_slice(&[8]); w }",
          "{ let mut w = v.clone(); w.reverse(); w }", "{ let mut w = v.clone(); w.sort(); w }", "{ let mut w = v.clone(); w.dedup(); w }", "{ let mut w = v.clone(); w.retain(|x| *x > 1); w }", "{ let mut w = v.clone(); w.truncate(2); w }",
          "{ let mut w = v.clone(); w.clear(); w }", "{ let mut w = v.clone(); let mut z = vec![1]; w.append(&mut z); w }", "{ let mut w = v.clone(); let p = w.pop(); w.push(p.unwrap_or(77)); w }",
          "{ let mut w = v.clone(); let d: Vec<i64> = w.drain(..).collect(); d }", "{ let mut w = v.clone(); for x in w.iter_mut() { *x += 1; } w }", "{ let mut w = v.clone(); if let Some(x) = w.first_mut() { *x = 50; } w }",
          "{ let mut w = v.clone(); if let Some(x) = w.last_mut() { *x += 50; } w }", "{ let mut w = v.clone(); if w.len() > 1 { w[1] = 60; } w }", "{ let mut w = v.clone(); if w.len() > 1 { w.swap(0, 1); } w }",
          "{ let mut w = v.clone(); if w.len() > 1 { w.remove(0); } w }", "{ let mut w = Vec::new(); for x in &v { if *x == 3 { continue; } w.push(x + 1); } w }", "{ let mut w = Vec::new(); for x in &v { if *x > 3 { break; } w.push(*x); } w }",
          "{ let mut w = Vec::new(); for (i, x) in v.iter().enumerate() { for y in &v[..i] { w.push(x * y); } } w }", "{ let mut w = Vec::new(); let mut p = 0; for x in &v { w.push(x - p); p = *x; } w }",
          "{ let mut w = Vec::new(); let mut p = None; for x in &v { if let Some(q) = p { w.push(x - q); } p = Some(*x); } w }", "{ let mut w = vec![]; let mut i = 0; while i < v.len() { w.push(v[i]); i += 2; } w }",
          "v.iter().fold(vec![], |mut a, x| { a.push(x + 1); a })", "v.clone().into_iter().map(|x| x - 1).collect()", "v.to_vec()", "v.iter().cloned().inspect(|_| ()).collect()", "v.iter().flat_map(|x| if *x > 2 { Some(*x) } else { None }).collect()",
          "vec![v.clone(), v.clone()].concat()", "v.iter().map(|x| Some(*x).filter(|y| *y > 2)).flatten().collect()", "v.iter().peekable().copied().collect()", "{ let (a, b): (Vec<i64>, Vec<i64>) = v.iter().partition(|x| **x > 2); a.into_iter().chain(b).collect() }",
          "v.iter().copied().filter(|x| x % 2 == 1).map(|x| x * x).rev().collect()", "v.chunks(2).map(|c| c.len() as i64).collect()"]: t("Vec<i64>", e, v=VEC)
for e in ["v.iter().sum()", "v.iter().fold(0, |a, x| a * 2 + x)", "v.iter().product()", "{ let mut s = 0; for x in &v { s += x; } s }", "{ let mut s = 0; for (i, x) in v.iter().enumerate() { s += x * i as i64; } s }",
          "{ let mut s = 0; v.iter().for_each(|x| s += x); s }", "v.iter().map(|x| x.abs()).max().unwrap_or(0)", "{ let mut n = 0; for x in v.iter().rev() { n += 1; if *x == 5 { break; } } n }",
          "{ let mut n = 0; for a in &v { for b in &v { if a < b { n += 1; } } } n }", "{ let mut n = 0; 'o: for a in &v { for b in &v { if a + b == 4 { n = *a; break 'o; } } } n }"]: t("i64", e, v=VEC)
for e in ["v.get(n).copied()", "v.iter().skip(n).next().copied()", "v.iter().take(n).last().copied()", "if n < v.len() { Some(v[n]) } else { None }", "v[..n.min(v.len())].last().copied()", "v.iter().nth(n).copied()"]: t("Option<i64>", e, v=VEC, n=N)
for e in ["v.iter().skip(n).copied().collect()", "v.iter().take(n).copied().collect()", "v.iter().rev().take(n).copied().collect()", "(0..n as i64).collect()", "(0..n).filter(|i| i % 2 == 0).map(|i| i as i64).collect()", "(0..=n as i64).rev().collect()",
          "{ let mut w = v.clone(); w.insert(n.min(w.len()), 1); w }", "{ let mut w = v.clone(); w.truncate(n); w }", "v.iter().cycle().take(if v.is_empty() { 0 } else { n }).copied().collect()"]: t("Vec<i64>", e, v=VEC, n=N)
for e in ["v.join(\",\")", "v.concat()", "v.iter().map(|s| format!(\"<{s}>\")).collect::<Vec<_>>().join(\"; \")", "v.iter().map(|s| s.as_str()).collect::<String>()", "v.iter().fold(String::new(), |a, s| a + s)", "format!(\"{:?}\", v)",
          "{ let mut r = String::new(); for s in &v { if !r.is_empty() { r.push(','); } r.push_str(s); } r }"]: t("String", e, v=SV)
for e in ["v.contains(&\"a\".to_string())", "v.iter().any(|s| s == \"a\")", "v.iter().all(|s| s.len() < 2)", "v.iter().any(|s| s.is_empty())"]: t("bool", e, v=SV)
for e in ["v.iter().enumerate().map(|(i, x)| if i > 0 { format!(\",{x}\") } else { x.clone() }).collect::<String>()", "v.iter().enumerate().map(|(i, x)| if i > 1 { format!(\",{x}\") } else { x.clone() }).collect::<String>()",
          "{ let mut r = String::new(); for (i, x) in v.iter().enumerate() { if i != 0 { r.push(','); } r.push_str(x); } r }", "{ let mut r = String::new(); for (i, x) in v.iter().enumerate() { r.push_str(x); if i + 1 < v.len() { r.push(','); } } r }",
          "{ let mut r = String::new(); for (i, x) in v.iter().enumerate() { r.push_str(x); if i < v.len() { r.push(','); } } r }", "{ let mut r = String::new(); for i in 0..v.len() { if i >= 1 { r += \",\"; } r += &v[i]; } r }",
          "{ let mut r = String::new(); let mut i = 0; while i < v.len() { if i > 0 { r.push(','); } r.push_str(&v[i]); i += 1; } r }", "v.iter().rev().cloned().collect::<Vec<_>>().join(\",\")", "v.iter().skip(1).cloned().collect::<Vec<_>>().join(\",\")",
          "v.iter().filter(|x| !x.is_empty()).cloned().collect::<Vec<_>>().join(\",\")", "format!(\"{0}{1}{0}\", v.len(), v.concat())", "format!(\"{1}{0}\", v.len(), v.concat())", "format!(\"{0}{1}\", v.len(), v.concat())", "format!(\"{}{}\", v.len(), v.concat())"]: t("String", e, v=SV)
for e in ["s.split([':', '%']).count()", "s.split(&[':', '%'][..]).count()", "s.split(|c| c == ':' || c == '%').count()", "s.matches(':').count()", "s.rsplit(':').count()", "s.split([':']).count()"]: t("usize", e, s=STR)
for e in ["s.starts_with([':', '%'])", "s.starts_with(|c| c == ':' || c == '%')", "s.starts_with(':') || s.starts_with('%')", "s.contains([':', '%'])", "s.contains(|c: char| c == ':')", "s.contains(\":\")", "s.split(':').count() > 1", "s.split_once(':').is_some()",
          "s.rsplit_once(':').is_some()", "s.find(':').is_some()", "s.rfind(':').is_none()", "s.chars().any(|c| c == ':' || c == '%')", "s.ends_with([':', 'c'])"]: t("bool", e, s=STR)
for e in ["s.rsplit(':').nth(1)", "s.rsplit([':', '%']).next()", "s.split([':', '%']).last()", "s.rsplit_once(':').map(|x| x.1)", "s.split_once(':').map(|x| x.0)", "s.split_once(':').map(|x| x.1)", "s.rsplit_once(':').map(|x| x.0)", "s.rfind(':').map(|i| &s[i + 1..])",
          "s.find(':').map(|i| &s[..i])", "s.rfind([':', '%']).map(|i| &s[i + 1..])", "s.splitn(2, ':').nth(1)", "s.rsplitn(2, ':').next()", "s.split(':').next_back()", "s.rfind(':').map(|i| &s[i..])"]: t("Option<&str>", e, s=STR)
for e in ["{ let mut o = vec![]; for i in 1..v.len() { o.push(v[i]); } o }", "v[1.min(v.len())..].to_vec()", "{ let mut o = vec![]; let mut i = 1; while i < v.len() { o.push(v[i]); i += 1; } o }", "v.iter().skip(1).copied().collect()",
          "{ let mut o = vec![]; for i in 0..v.len() { if i > 0 { o.push(v[i]); } } o }", "match v.as_slice() { [] => vec![], [_, r @ ..] => r.to_vec() }", "match v.as_slice() { [a, .., b] => vec![*a, *b], r => r.to_vec() }",
          "{ let mut o = vec![]; if let (Some(a), Some(b)) = (v.first(), v.last()) { if v.len() > 1 { o.push(*a); o.push(*b); } else { o.push(*a); } } o }", "{ let mut o = vec![]; for i in 0..v.len() { o.push(v[v.len() - 1 - i]); } o }",
          "{ let mut o = vec![]; for i in 1..v.len() { o.push(v[i - 1]); } o }", "{ let mut o = vec![]; for w in v.windows(2) { o.push(w[0]); } o }", "v.split_first().map(|x| x.1.to_vec()).unwrap_or_default()", "v.split_last().map(|x| x.1.to_vec()).unwrap_or_default()",
          "{ let mut o = vec![]; for (i, x) in v.iter().enumerate() { if i + 1 < v.len() { o.push(*x); } } o }", "v.iter().zip(v.iter().skip(1)).map(|(a, _)| *a).collect()",
          "{ let mut o = vec![]; for x in &v { if *x > 1 { if *x < 5 { o.push(*x); } } } o }", "v.iter().filter(|x| **x > 1 && **x < 5).copied().collect()", "v.iter().filter(|x| **x > 1 || **x < 5).copied().collect()",
          "v.iter().filter(|x| **x > 1).filter(|x| **x < 5).copied().collect()", "{ let mut o = vec![]; for x in &v { if *x <= 1 { continue; } if *x >= 5 { continue; } o.push(*x); } o }", "{ let mut o = vec![]; for x in &v { if *x <= 1 { break; } o.push(*x); } o }",
          "{ let mut w = v.clone(); w.retain(|x| *x > 1 && *x < 5); w }"]: t("Vec<i64>", e, v=VEC)
# ---- maps
M1 = "{ let mut m: HashMap<i64, i64> = HashMap::new(); for x in &v { %s } %s }"
for ins in ["m.insert(*x, 1);", "*m.entry(*x).or_insert(0) += 1;", "*m.entry(x % 2).or_default() += x;", "if m.contains_key(x) { m.insert(*x, 2); } else { m.insert(*x, 1); }"]:
    for q, ty in [("m.len()", "usize"), ("m.get(&5).copied()", "Option<i64>"), ("m.contains_key(&2)", "bool"), ("m.is_empty()", "bool"), ("m.get(&1).is_some()", "bool"), ("m.get(&0).copied().unwrap_or(3)", "i64")]:
        t(ty, M1 % (ins, q), v=VEC)
        if "len" not in q: t(ty, (M1 % (ins, q)).replace("HashMap", "BTreeMap"), v=VEC)
for q, ty in [("m.iter().next().map(|(k, _)| *k)", "Option<i64>"), ("m.keys().copied().collect()", "Vec<i64>"), ("m.values().copied().collect()", "Vec<i64>"), ("m.iter().map(|(k, x)| k * x).collect()", "Vec<i64>"),
              ("m.range(2..).next().map(|(k, _)| *k)", "Option<i64>"), ("m.iter().find(|(k, _)| **k > 2).map(|(_, x)| *x)", "Option<i64>"), ("{ m.remove(&5); m.len() }", "usize"), ("m.insert(5, 3)", "Option<i64>"),
              ("{ if let Some(x) = m.get_mut(&5) { *x = 11; } m.get(&5).copied() }", "Option<i64>"), ("m.into_iter().map(|(k, _)| k).collect()", "Vec<i64>"), ("m.last_key_value().map(|(k, _)| *k)", "Option<i64>")]:
    t(ty, (M1 % ("m.insert(*x, x + 1);", q)).replace("HashMap", "BTreeMap"), v=VEC)
# ---- ranges, tuples, structs, references
for e in ["(a..b).contains(&n)", "(a..b).is_empty()", "(a..=b).contains(&n)", "(a..b) == (n..b)", "n >= a && n < b", "(a, b) < (b, n)"]: t("bool", e, a=N, b=N, n=N)
t("usize", "(a..b).len()", a=N, b=N); t("usize", "b.saturating_sub(a)", a=N, b=N); t("usize", "std::cmp::max(a, b) - std::cmp::min(a, b)", a=N, b=N)
t("(usize, usize)", "{ let mut p = (a, b); std::mem::swap(&mut p.0, &mut p.1); p }", a=N, b=N)
t("(usize, usize)", "{ let mut p = (a, b); { let q = &mut p.1; *q += 3; } p }", a=N, b=N)
t("(usize, usize)", "{ let mut x = a; let old = std::mem::replace(&mut x, b); (old, x) }", a=N, b=N)
t("(i64, Vec<i64>)", "{ let mut w = v; let old = std::mem::take(&mut w); w.push(1); (old.len() as i64, w) }", v=VEC)
t("i64", "{ let mut p = P { x: a, y: 2 }; bump(&mut p); p.x = p.x / 2; p.y + p.x }", a=("i64", ["0", "8", "-3"]))
t("i64", "{ let p = P { x: a, y: 2 }; let q = P { y: 9, ..p.clone() }; q.x * 100 + q.y + p.y }", a=("i64", ["0", "8", "-3"]))
t("i64", "area(&match n { 0 => Sh::Unit, 1 => Sh::Sq(4), 2 => Sh::Rect { w: 2, h: 5 }, _ => Sh::Sq(n as i64) })", n=N)
t("bool", "P { x: 1, y: a } == P { x: 1, y: 8 }", a=("i64", ["0", "8"]))
t("bool", "(if n == 0 { Sh::Unit } else { Sh::Sq(n as i64) }) == Sh::Sq(2)", n=N)
t("i64", "{ let f = |x: i64| x * a; f(2) + f(3) }", a=("i64", ["0", "8", "-3"]))
t("i64", "{ let mut c = 0; let mut f = |x: i64| c += x; f(a); f(2); c }", a=("i64", ["0", "8", "-3"]))
t("i64", "pick(v.as_slice()).unwrap_or(-100)", v=VEC)
t("i64", "{ let b: Box<dyn Fn(i64) -> i64> = Box::new(move |x| x + a); b(1) }", a=("i64", ["0", "8"]))
# ---- ropey
ROPE = ("&str", [rs(x) for x in ["", "a", "ab\ncd", "a\r\nb\n", "\u00e9\U0001F600x\n\n", "\n", "x\ry", "a\u2028b\n"]])
for e in ["r.len_chars()", "r.len_lines()", "r.len_utf16_cu()", "r.len_bytes()"]: t("usize", "{ let r = ropey::Rope::from_str(s); %s }" % e, s=ROPE)
for e in ["try_line_to_char(n)", "try_char_to_line(n)", "try_char_to_utf16_cu(n)", "try_utf16_cu_to_char(n)", "try_char_to_byte(n)", "try_byte_to_char(n)"]: t("Option<usize>", "{ let r = ropey::Rope::from_str(s); r.%s.ok() }" % e, s=ROPE, n=N)
# ---- serde_json
JS = ("&str", [rs(x) for x in ["", "{}", "[]", "null", '{"backtrace":[["a","b:1"]]}', '{"backtrace":3}', '["x"]', "1", '"s"', "{", '{"a":"b"}']])
for e in ["serde_json::from_str::<serde_json::Value>(s).is_ok()", "serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get(\"backtrace\").is_some())",
          "serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.get(\"backtrace\").and_then(|b| b.as_array().map(|x| x.len())) == Some(1))", "serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_array().is_some())",
          "serde_json::from_str::<serde_json::Value>(s).ok().map_or(false, |v| v.as_str() == Some(\"s\"))"]: t("bool", e, s=JS)

HEAD = """#![allow(unused_mut, unused_variables, dead_code, clippy::all, unused_parens, unused_imports, unused_assignments)]
use std::collections::{BTreeMap, HashMap};
#[derive(Clone, Debug, PartialEq)]
pub struct P { pub x: i64, pub y: i64 }
#[derive(Clone, Debug, PartialEq)]
pub enum Sh { Unit, Sq(i64), Rect { w: i64, h: i64 } }
pub fn bump(p: &mut P) { p.x += 1; if p.x > 5 { p.y = 0; } }
pub fn area(s: &Sh) -> i64 { match s { Sh::Unit => 1, Sh::Sq(a) => a * a, Sh::Rect { w, h } => w * h } }
pub fn pick(v: &[i64]) -> Option<i64> { let (a, b) = (v.first()?, v.last()?); if a == b { return None; } Some(a - b) }
"""
LIT = """
trait Lit { fn lit(&self) -> String; }
macro_rules! prim { ($($t:ty),*) => { $(impl Lit for $t { fn lit(&self) -> String { let s = format!("{}", self); if s == "-9223372036854775808" { "i64::MIN".into() } else { s } } })* } }
prim!(i64, u64, u32, u8, usize, bool);
impl Lit for str { fn lit(&self) -> String { let mut r = String::from("\\""); for c in self.chars() { r += &format!("\\\\u{{{:x}}}", c as u32); } r + "\\"" } }
impl Lit for &str { fn lit(&self) -> String { (**self).lit() } }
impl Lit for String { fn lit(&self) -> String { format!("String::from({})", self.as_str().lit()) } }
impl Lit for char { fn lit(&self) -> String { format!("'\\\\u{{{:x}}}'", *self as u32) } }
impl<T: Lit> Lit for Option<T> { fn lit(&self) -> String { match self { None => "None".into(), Some(x) => format!("Some({})", x.lit()) } } }
impl<T: Lit, E: Lit> Lit for Result<T, E> { fn lit(&self) -> String { match self { Err(x) => format!("Err({})", x.lit()), Ok(x) => format!("Ok({})", x.lit()) } } }
impl<T: Lit> Lit for Vec<T> { fn lit(&self) -> String { format!("vec![{}]", self.iter().map(|x| x.lit()).collect::<Vec<_>>().join(", ")) } }
impl<T: Lit, U: Lit> Lit for (T, U) { fn lit(&self) -> String { format!("({}, {})", self.0.lit(), self.1.lit()) } }
"""


# ---- iterators that are consumed in parts, folds, slices
for e in ["{ let mut i = v.iter(); let a = i.any(|x| *x == 2) as i64; a * 100 + i.next().copied().unwrap_or(-7) }", "{ let mut i = v.iter(); let a = i.find(|x| **x > 1).copied().unwrap_or(0); a * 100 + i.count() as i64 }",
          "{ let mut i = v.iter(); let a = i.nth(1).copied().unwrap_or(0); a * 100 + i.next().copied().unwrap_or(-7) }", "{ let mut i = v.iter(); let a = i.position(|x| *x == 5).unwrap_or(9); a as i64 * 100 + i.len() as i64 }",
          "{ let mut i = v.iter(); i.next(); i.all(|x| *x < 3); i.next().copied().unwrap_or(-7) }", "v.iter().fold(0, |a, x| a + x)", "v.iter().fold(1, |a, x| if *x > 2 { a + x } else { a })", "v.iter().rev().fold(0, |a, x| a * 10 + x)",
          "v.iter().filter(|x| **x > 1).fold(0, |a, _| a + 1)", "match v.split_first() { Some((a, r)) => a * 10 + r.len() as i64, None => -1 }", "match v.split_last() { Some((a, r)) => a * 10 + r.len() as i64, None => -1 }",
          "v.iter().map(|x| x * 2).nth(2).unwrap_or(-3)", "v.iter().enumerate().fold(0, |a, (i, x)| a + i as i64 * x)"]: t("i64", e, v=VEC)
for e in ["v.iter().fold(Vec::new(), |mut a, x| { a.push(*x); a })", "v.iter().fold(vec![], |mut a: Vec<i64>, x| { if a.last() != Some(x) { a.push(*x); } a })", "v[..v.len() / 2].to_vec()", "v[v.len() / 2..].to_vec()", "v[..].to_vec()",
          "v[v.len().min(1)..v.len()].to_vec()", "v.get(1..).map(|x| x.to_vec()).unwrap_or_default()", "v.split_first().map(|(_, r)| r.to_vec()).unwrap_or_default()", "v.split_last().map(|(_, r)| r.to_vec()).unwrap_or_default()"]: t("Vec<i64>", e, v=VEC)
for e in ["s.as_bytes().len()", "s.as_bytes().iter().filter(|b| **b == b':').count()", "s.bytes().filter(|b| *b < 128).count()", "s.get(1..2).map(|x| x.len()).unwrap_or(9)", "s.get(..2).map(|x| x.len()).unwrap_or(9)",
          "s.get(3..).map(|x| x.len()).unwrap_or(9)"]: t("usize", e, s=STR)
for e in ["s.as_bytes().first() == Some(&b'a')", "s.starts_with('\\u{e9}')", "s.chars().next() == Some(':')", "s.chars().next().map_or(false, |c| c.is_ascii_punctuation())", "s.get(0..1) == Some(\"a\")", "s.is_char_boundary(1)",
          "s.bytes().next() == Some(b'%')", "s.chars().all(|c| c.is_ascii_graphic())"]: t("bool", e, s=STR)
for e in ["{ use std::fmt::Write; let mut r = String::new(); write!(r, \"<{}>\", s).unwrap(); writeln!(r, \"{}\", s.len()).unwrap(); r }", "{ let mut r = String::from(\"-\"); r.extend(s.chars()); r.extend(s.split(':')); r }",
          "{ let mut r = String::new(); r.extend(s.split(':').map(|x| format!(\"{x};\"))); r }", "s.chars().fold(String::new(), |mut r, c| { if c != ':' { r.push(c); } r })", "s.split(':').fold(String::new(), |r, x| r + x + \"|\")"]: t("String", e, s=STR)
for e in ["r.clone().map_or(7, |x| x + 1)", "r.clone().or_else(|e| if e.len() == 3 { Ok::<i64, String>(5) } else { Err(e) }).unwrap_or(0)", "r.iter().map(|x| x + 1).next().unwrap_or(-1)", "r.clone().into_iter().count() as i64"]: t("i64", e, r=RES)
for e in ["o.and(Some(5))", "o.xor(Some(5))", "o.xor(None)", "o.and(None::<i64>)"]: t("Option<i64>", e, o=OPT)
for e in ["c.is_ascii_punctuation()", "c.is_ascii_whitespace()", "c.is_ascii_hexdigit()", "c.is_ascii_control()", "c.is_ascii_graphic()", "c.is_digit(2)"]: t("bool", e, c=CH)
for e in ["b.is_ascii_digit()", "b.is_ascii()", "b.is_ascii_uppercase()", "b.is_ascii_whitespace()"]: t("bool", e, b=U8)

def cases():
    for n, (ty, ex, ps) in enumerate(T):
        names = list(ps)
        for k, vals in enumerate(itertools.product(*[ps[p][1] for p in names])):
            yield n, k, ty, ex, [(p, ps[p][0], v) for p, v in zip(names, vals)]


def main():
    src = os.path.join(HERE, "src")
    os.makedirs(src, exist_ok=True)
    # first run: the values
    m = HEAD + LIT
    for n, (ty, ex, ps) in enumerate(T):
        m += "fn e%d(%s) -> %s { %s }\n" % (n, ", ".join("%s: %s" % (p, x[0]) for p, x in ps.items()), ty.replace("&str", "&'static str"), ex)
    m = m.replace(": &str", ": &'static str").replace("(v: &'static str", "(v: &'static str")
    m += "fn main() {\n"
    for n, k, ty, ex, ps in cases():
        m += '    println!("%d {} {}", %d, e%d(%s).lit());\n' % (n, k, n, ", ".join(v for _, _, v in ps))
    m += "}\n"
    with open(os.path.join(src, "main.rs"), "w") as f: f.write(m)
    with open(os.path.join(src, "lib.rs"), "w") as f: f.write("")
    r = subprocess.run(["cargo", "run", "--offline", "-q", "--bin", "conform"], cwd=HERE, stdout=subprocess.PIPE, text=True)
    os.remove(os.path.join(src, "main.rs"))
    if r.returncode: sys.exit(1)
    val = {}
    for l in r.stdout.splitlines():
        a, b, c = l.split(" ", 2)
        val[int(a), int(b)] = c
    out, names = HEAD, []
    for n, k, ty, ex, ps in cases():
        let = " ".join("let %s: %s = %s;" % (p, x, v) for p, x, v in ps)
        nm = "c%d_%d" % (n, k)
        out += "pub fn %s() -> bool { %s let got: %s = %s; let exp: %s = %s; got == exp }\n" % (nm, let, ty, ex, ty, val[n, k])
        names.append(nm)
        # the same with an argument the verifier does not know
        known = [p for p in ps if p[1] in ("&str", "i64", "usize", "u32", "u8", "char", "bool")]
        if known and len(known) == len(ps):
            nm = "s%d_%d" % (n, k)
            out += "pub fn %s(%s) -> bool { if !(%s) { return true; } let got: %s = %s; let exp: %s = %s; got == exp }\n" % (
                nm, ", ".join("%s: %s" % (p, x if x != "&str" else "&'static str") for p, x, v in ps), " && ".join("%s == %s" % (p, v) for p, x, v in ps), ty.replace("&str", "&'static str") if 0 else ty, ex, ty, val[n, k])
            names.append((nm, [v for _, _, v in ps]))
    # each expression over arguments that the verifier does not know: for pairs.py
    smp = {}
    for n, (ty, ex, ps) in enumerate(T):
        out += "pub fn v%d%s(%s) -> %s { %s }\n" % (n, "<'a>" if "&" in ty else "", ", ".join("%s: %s" % (p, x[0].replace("&", "&'a ") if "&" in ty else x[0]) for p, x in ps.items()), ty.replace("&", "&'a "), ex)
        smp["v%d" % n] = [ty, [x[0] for x in ps.values()], ex, {}]
    for m, k, ty, ex, ps in cases(): smp["v%d" % m][3][" ".join(v for _, _, v in ps)] = val[m, k]
    with open(os.path.join(HERE, "samples.json"), "w") as f: json.dump(smp, f, indent=0, sort_keys=True)
    out += "#[test]\nfn all() {\n"
    for x in names:
        out += "    assert!(%s(%s), \"%s\");\n" % ((x, "", x) if isinstance(x, str) else (x[0], ", ".join(x[1]), x[0]))
    out += "}\n"
    with open(os.path.join(src, "lib.rs"), "w") as f: f.write(out)
    print(len(T), "expressions", len(names), "functions")


main()
