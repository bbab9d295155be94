EV='''#![allow(unused)]
use abe::{*, eval::*, scope::*};
fn ev(s: &str) -> Result<Vec<u8>, String> {
    let e = parse_abe_strict_b(s.as_bytes()).map_err(|e| format!("parse {e}"))?;
    eval(&basic_scope(), &e).map(|l| l.concat()).map_err(|e| e.to_string())
}
'''
seed("a01-hex-upper-f","A01",[("abe/src/abtxt.rs","b'A'..=b'F' => 10 + (b1 - b'A'),","b'A'..=b'E' => 10 + (b1 - b'A'),")],
 "a hex escape whose low nibble is an upper case F","reading text with \\x.F escapes",EV+r'''
fn main(){
    assert_eq!(abe::abtxt::parse_abtxt_upto_max("\\xAB\\xa1\\xCF", 9).ok(), Some(vec![0xab,0xa1,0xcf]));
}''')
seed("a01-limit-zero","A01",[("abe/src/abtxt.rs","if total >= m {","if total >= m.max(1) {")],
 "a size limit of zero","reading text under a limit of 0 bytes succeeds with one byte",EV+r'''
fn main(){
    assert!(abe::abtxt::parse_abtxt_upto_max("a", 0).is_err());
    assert!(abe::abtxt::parse_abtxt_upto_max("", 0).is_ok());
    assert!(abe::abtxt::parse_abtxt_upto_max("ab", 1).is_err());
}''')
seed("a02-depth-u8","A02",[("abe/src/ast.rs","""pub fn parse_abe_strict_b(st: &[u8]) -> Result<Vec<ABE>, ASTParseError> {
    let mut depth = 0;""","""pub fn parse_abe_strict_b(st: &[u8]) -> Result<Vec<ABE>, ASTParseError> {
    let mut depth = 0u8;""")],
 "expression text nested 256 deep","parsing deeply nested text",EV+r'''
fn main(){
    let st = "[".repeat(300)+"a"+&"]".repeat(300);
    let e = parse_abe_strict_b(st.as_bytes()).unwrap();
    assert_eq!(print_abe(&e), st);
}''')
seed("a02-lenient-newline","A02",[("abe/src/ast.rs","""            Err(ABTxtError::ParseError { byte, idx: _ }) => {
                todo = &todo[1..];
                bytes.push(byte);""","""            Err(ABTxtError::ParseError { byte, idx: _ }) => {
                todo = &todo[1..];
                if byte == b'\\r' && todo.first() == Some(&b'\\n') {
                    continue;
                }
                bytes.push(byte);""")],
 "a carriage return directly before a newline in leniently parsed text","lenient parsing drops a byte",EV+r'''
fn main(){
    for t in [&b"a\rb"[..], b"a\r\nb", b"\r\n", b"\n\r"] {
        let e = abe::ast::parse_abe_with_unencoded_b(t).unwrap();
        let l: ABList = e.as_slice().try_into().unwrap();
        assert_eq!(l.concat(), t);
    }
}''')
seed("a03-depth-three","A03",[("abe/src/ast.rs","""                            CtrChar::CloseBracket => depth -= 1,
                            _ => {}
                        }
                    }""","""                            CtrChar::CloseBracket => depth = depth.min(2) - 1,
                            _ => {}
                        }
                    }""")],
 "brackets nested three deep with something after the inner one","splitting reports unbalanced brackets for balanced text",EV+r'''
fn main(){
    let v = tokenize_abe("a:[b[c[d]:e]]/x", 0, 0).unwrap();
    assert_eq!(v, vec![(0,false,"a"),(b':',true,"[b[c[d]:e]]"),(b'/',false,"x")]);
}''')
seed("a04-trailing-slash","A04",[("abe/src/eval.rs",".position(|v| v.0 == Some(Ctr::FSlash))",".position(|v| v.0 == Some(Ctr::FSlash) && !v.1.is_empty())")],
 "an empty call at the end or middle of a pipeline","a pipeline with an empty call evaluates instead of failing",EV+r'''
fn main(){
    assert!(ev("[u8:1/?b/]").is_err());
    assert!(ev("[u8:1/C/]").unwrap_err().contains("no such func"));
    assert_eq!(ev("[u8:1/?b]").unwrap(), b"AQ");
}''')
seed("a04-literal-empty-list","A04",[("abe/src/eval.rs","""                Expr::Lst(l) => {
                    out.push(b'[');
                    dump_abe_bytes(out, l);""","""                Expr::Lst(l) if l.is_empty() => {}
                Expr::Lst(l) => {
                    out.push(b'[');
                    dump_abe_bytes(out, l);""")],
 "an empty bracket pair inside a literal","'[/:...]' loses bytes",EV+r'''
fn main(){
    assert_eq!(ev("[/:a[]b]").unwrap(), b"a[]b");
    assert_eq!(ev("[/:a[x:y]b]").unwrap(), b"a[x:y]b");
}''')
seed("a05-triple-macro-order","A05",[("abe/src/eval.rs","((&self.0, &self.1), &self.2).try_apply_macro(id, abe, scope)","(&self.0, (&self.2, &self.1)).try_apply_macro(id, abe, scope)")],
 "a triple of scopes whose second and third both define a macro of the same name","the wrong scope's macro runs",EV+r'''
struct M(&'static str);
impl Scope for M {
    fn try_apply_func(&self, _:&[u8], _:&[&[u8]], _:bool, _:&dyn Scope) -> ApplyResult { ApplyResult::NoValue }
    fn try_apply_macro(&self, id:&[u8], _:&[ABE], _:&dyn Scope) -> ApplyResult { if id == b"m" { ApplyResult::Value(self.0.into()) } else { ApplyResult::NoValue } }
    fn try_encode(&self, _:&[u8], _:&[ABE], _:&[u8]) -> ApplyResult<String> { ApplyResult::NoValue }
}
fn main(){
    let e = parse_abe_strict_b(b"[/m:]").unwrap();
    let s = ((), M("one"), M("two"));
    assert_eq!(eval(&s, &e).unwrap().concat(), b"one");
}''')
seed("a05-failed-scope-macro","A05",[("abe/src/eval.rs","""            Ok(scope) => scope.try_apply_macro(id, abe, scopes),
            Err(e) => ApplyResult::Err(anyhow::anyhow!("Scope level error: {e:?}")),""","""            Ok(scope) => scope.try_apply_macro(id, abe, scopes),
            Err(_) => ApplyResult::NoValue,""")],
 "a macro looked up through a scope that failed to load, with a later scope defining it","the failed scope is skipped silently",EV+r'''
fn main(){
    let failed: anyhow::Result<()> = Err(anyhow::anyhow!("broken"));
    let s = (failed, basic_scope());
    let e = parse_abe_strict_b(b"[/e:x]").unwrap();
    assert!(matches!(eval(&s, &e), Err(EvalError::SubEval(..))));
}''',extra='anyhow = "1"')
seed("a06-empty-pad","A06",[("abe/src/scope/bytes.rs","let padb = inp.get(2).copied().unwrap_or(&tmp_pad);","let padb = inp.get(2).copied().filter(|p| !p.is_empty()).unwrap_or(&tmp_pad);")],
 "a pad function with an explicitly empty pad byte","an empty pad argument is accepted",EV+r'''
fn main(){
    assert!(ev("[lpad:ab:4:]").is_err());
    assert!(ev("[lpad:ab:4:xy]").is_err());
    assert_eq!(ev("[lpad:ab:4:x]").unwrap(), b"xxab");
}''')
seed("a06-slice-zero-end","A06",[("abe/src/scope/bytes.rs","let end = to_bound(end).unwrap_or(eb);","let end = to_bound(end).filter(|e| *e != 0 || step > 0).unwrap_or(eb);")],
 "a slice with negative step and stop 0","the stop position 0 is included when stepping backwards",EV+r'''
fn main(){
    assert_eq!(ev("[slice:abcd:3:0:-1]").unwrap(), b"dcb");
    assert_eq!(ev("[slice:abcd:3::-1]").unwrap(), b"dcba");
}''')
seed("a07-add8-zero","A07",[("abe/src/scope/uint.rs","""pub fn carry_add_be(bytes: &mut [u8], val: &[u8]) -> bool {
    debug_assert!(bytes.len() == val.len());""","""pub fn carry_add_be(bytes: &mut [u8], val: &[u8]) -> bool {
    debug_assert!(bytes.len() == val.len());
    if let (Ok(a), Ok(b)) = (<[u8; 8]>::try_from(&*bytes), <[u8; 8]>::try_from(val)) {
        let (a, b) = (u64::from_be_bytes(a), u64::from_be_bytes(b));
        let sum = a.wrapping_add(b);
        bytes.copy_from_slice(&sum.to_be_bytes());
        return a != 0 && sum <= a && b != 0 || a == 0 && sum < b || a == u64::MAX && b == 0;
    }""")],
 "8 byte addition of zero to all ones, reported as a carry (harmless), or of a wrapping pair","none really",EV+'fn main(){}')
S.pop()
seed("a07-add8-wrap","A07",[("abe/src/scope/uint.rs","""pub fn carry_add_be(bytes: &mut [u8], val: &[u8]) -> bool {
    debug_assert!(bytes.len() == val.len());""","""pub fn carry_add_be(bytes: &mut [u8], val: &[u8]) -> bool {
    debug_assert!(bytes.len() == val.len());
    if let (Ok(a), Ok(b)) = (<[u8; 8]>::try_from(&*bytes), <[u8; 8]>::try_from(val)) {
        let sum = u64::from_be_bytes(a).wrapping_add(u64::from_be_bytes(b));
        bytes.copy_from_slice(&sum.to_be_bytes());
        return sum != 0 && sum.to_be_bytes() < a;
    }""")],
 "8 byte operands whose sum is exactly 2^64","the sum wraps to zero instead of saturating",EV+r'''
fn main(){
    assert_eq!(ev("[u64:18446744073709551615/+:[u64:1]]").unwrap(), [255;8]);
    assert_eq!(ev("[u64:18446744073709551615/+:[u64:2]]").unwrap(), [255;8]);
    assert_eq!(ev("[u64:5/+:[u64:2]]").unwrap(), [0,0,0,0,0,0,0,7]);
}''')
seed("a07-lu-print-16","A07",[("abe/src/scope/uint.rs","""                 if val.len() > 16 { return Err(anyhow::anyhow!("ints larger than 16 bytes (fixme)"));}""","""                 if val.len() > 16 || (val.len() == 16 && val[15] == 0xff) { return Err(anyhow::anyhow!("ints larger than 16 bytes (fixme)"));}""")],
 "printing a 16 byte little endian number with the top byte all ones","a number that fits is refused",EV+r'''
fn main(){
    assert_eq!(ev("[lu128:340282366920938463463374607431768211455/?lu]").unwrap(), b"340282366920938463463374607431768211455");
    assert!(ev("[rpad:a:17/?lu]").is_err());
}''')
seed("a08-trailing-bits","A08",[("abe/src/scope/base.rs","BASE64_URL_SAFE_NO_PAD.decode(st.as_ref())","""base64::engine::GeneralPurpose::new(
        &base64::alphabet::URL_SAFE,
        base64::engine::GeneralPurposeConfig::new()
            .with_encode_padding(false)
            .with_decode_padding_mode(base64::engine::DecodePaddingMode::RequireNone)
            .with_decode_allow_trailing_bits(true),
    )
    .decode(st.as_ref())""")],
 "a base64 text whose last character has non-zero unused bits","non canonical base64 is accepted",EV+r'''
fn main(){
    assert!(ev("[b:AB]").is_err());
    assert_eq!(ev("[b:AQ]").unwrap(), [1]);
}''')
seed("a08-mini-boundary","A08",[("abe/src/scope/base.rs","r.push_str(&st[st.len() - 2..]);","r.push_str(&st[st.len() - if len % 3 == 0 && len > 30 { 3 } else { 2 }..]);")],
 "abbreviating a byte string longer than 30 bytes whose length is a multiple of three","the abbreviated form keeps three trailing characters",EV+r'''
fn main(){
    let st = abe::scope::base::mini_b64(&[7;33]);
    let full = abe::scope::base::base64([7;33]);
    assert_eq!(&st[st.len()-2..], &full[full.len()-2..]);
    assert!(st.trim_start_matches(&full[..6]).trim_start_matches(':').len() <= 2);
}''')
seed("a09-or-empty","A09",[("abe/src/scope/logic.rs","Ok(b) => return Ok(b.concat()),","Ok(b) if !b.is_empty() || o.is_empty() => return Ok(b.concat()),\n                              Ok(_) => {}")],
 "an alternative of 'or' that is not empty itself but evaluates to nothing","'or' skips a successful empty alternative",EV+r'''
fn main(){
    assert_eq!(ev("[/or:[C:x]:b]").unwrap(), b"");
    assert_eq!(ev("[/or:[nosuch]:b]").unwrap(), b"b");
}''')
seed("a10-bs-slashes","A10",[("abe/src/scope/base.rs",".replace('/', \"\\\\/\")",".replacen('/', \"\\\\/\", 2)")],
 "bytes whose standard base64 form contains three slashes","the encoded text does not evaluate back",EV+r'''
fn main(){
    for b in [&[255u8,255,255][..], &[255,255,0], &[1]] {
        let r = std::panic::catch_unwind(|| encode(&basic_scope(), b, "bs", false).unwrap()).expect("encode panicked");
        assert_eq!(ev(&r).unwrap(), b);
    }
}''')
seed("a10-macro-ignore","A10",[("abe/src/scope/encode.rs","ApplyResult::Value(crate::eval::encode_abe(scope, &bytes, rest,true)?.into_bytes())","ApplyResult::Value(crate::eval::encode_abe(scope, &bytes, rest, rest.split(|v| v.is_fslash()).count() < 3)?.into_bytes())")],
 "'~?' with three or more encoders, of which an early one fails","'~?' reports the error of the early encoder instead of going on",EV+r'''
fn main(){
    assert_eq!(ev("[/~?:abc/b:x/b]").unwrap(), b"[b:YWJj]");
    assert_eq!(ev("[/~?:abc/b:x/b2:x/b]").unwrap(), b"[b:YWJj]");
    assert!(ev("[/?:abc/b:x/b2:x/b]").is_err());
}''')
seed("a11-into-iter-head","A11",[("abe/src/eval.rs","let head: Option<Vec<u8>> = self.0.first().and_then(|o| o.0.map(|_| vec![]));","let head: Option<Vec<u8>> = self.0.first().filter(|o| self.0.len() > 1 || !o.1.is_empty()).and_then(|o| o.0.map(|_| vec![]));")],
 "a list that is only a delimiter","owned iteration yields one component too few",EV+r'''
fn main(){
    for t in [":", "/", ":a", "::", "a:b"] {
        let l = abe::abconf::parse_ablist_b(t.as_bytes()).unwrap();
        let a: Vec<Vec<u8>> = l.iter_bytes().map(|v| v.to_vec()).collect();
        let b: Vec<Vec<u8>> = l.clone().into_iter_bytes().collect();
        assert_eq!(a, b, "{t}");
        assert_eq!(a.len(), t.bytes().filter(|c| b":/".contains(c)).count()+1);
    }
}''')
seed("a12-extend-order","A12",[("abe/src/abconf.rs","self.0.extend(tail)","self.0.extend(tail.into_iter().rev())")],
 "extending a configuration with several entries that match the same prefix","the lookup returns the wrong entry",EV+r'''
use abe::abconf::*;
fn main(){
    let mut c = ABConf::default();
    c.extend(vec![parse_ablist_b(b"k:1").unwrap(), parse_ablist_b(b"k:2").unwrap()]);
    assert_eq!(c.has_optional_value(&[b"k"]).unwrap().ok().unwrap(), Some(&b"2"[..]));
}''')
seed("a12-prefix-filter","A12",[("abe/src/abconf.rs",".all(|(b, opt)| b == &opt);",".all(|(b, opt)| b == &opt || (opt.is_empty() && b.len() == 1 && starts_with.len() > 2));")],
 "a lookup of three or more components, one of a single byte, against an entry with an empty component there","an entry that does not start with the prefix is returned",EV+r'''
use abe::abconf::*;
fn main(){
    let mut c = ABConf::default();
    c.push(parse_ablist_b(b"a::c:v").unwrap());
    assert!(c.get_checked(&[b"a", b"b", b"c"]).next().is_none());
    assert!(c.get_checked(&[b"a", b"", b"c"]).next().is_some());
}''')
seed("a13-default-delims","A13",[("abe/src/convert.rs","if ablst.is_empty() {","if ablst.iter_bytes().all(|b| b.is_empty()) {")],
 "an expression with a default that evaluates to delimiters only","the default is returned for a result that is not empty",EV+r'''
fn main(){
    let t: TypedABE<Vec<u8>> = "::".parse().unwrap();
    assert_eq!(t.eval_default(b"d".to_vec(), &basic_scope()).unwrap(), b"::");
    let t: TypedABE<Vec<u8>> = "".parse().unwrap();
    assert_eq!(t.eval_default(b"d".to_vec(), &basic_scope()).unwrap(), b"d");
}''')
seed("a14-argv-args","A14",[("abe/src/scope/argv.rs","if !args.is_empty() || !init {","if !args.is_empty() && !init {")],
 "a positional argument opening a pipeline and given arguments","arguments to a positional argument are ignored silently",EV+r'''
use abe::scope::argv::ArgList;
fn main(){
    let a: Vec<&[u8]> = vec![b"x", b"y"];
    let s = ArgList::new(a);
    let f = |t: &str| eval(&s, &parse_abe_strict_b(t.as_bytes()).unwrap()).map(|l| l.concat()).ok();
    assert_eq!(f("[1]"), Some(b"y".to_vec()));
    assert_eq!(f("[1:z]"), None);
}''')
seed("a15-hex-short","A15",[("abe/src/abtxt.rs","if s.len() < 2 {","if s.is_empty() {")],
 "text ending in a hex escape cut after one digit","parsing panics",EV+r'''
fn main(){
    assert!(parse_abe_strict_b(b"ab\\x").is_err());
    assert!(parse_abe_strict_b(b"ab\\x4").is_err());
}''')
seed("a16-replace-skip","A16",[("abe/src/ast.rs","i += new.len();","i = (i + new.len().max(1)).min(inp.len());")],
 "removing a pattern (replacing by nothing) directly before another occurrence","an occurrence right after a removed one is missed",EV+r'''
fn main(){
    let p = |s: &str| parse_abe_strict_b(s.as_bytes()).unwrap();
    let mut v = p("a:a:a:a:");
    abe::ast::replace_abe(&mut v, &p("a:"), &[]);
    assert_eq!(print_abe(&v), "");
    let mut v = p("a:b:a:b:c");
    abe::ast::replace_abe(&mut v, &p("a:"), &p("/"));
    assert_eq!(print_abe(&v), "/b:/b:c");
}''')
seed("a17-shadow-init","A17",[("abe/src/scope/help.rs","let state = if seen.insert(id) {","let state = if init_eq.is_some() || seen.insert(id) {")],
 "a function restricted to one position, also listed by another scope","shadowed functions are not marked",EV+r'''
fn main(){
    let a: [&[u8];1] = [b"x"];
    let s = (EScope(ArgV::try_fit(&a).unwrap()), EScope(ArgV::try_fit(&a).unwrap()));
    let h = abe::scope::help::DisplayHelp(s).to_string();
    assert_eq!(h.matches("<partial>").count(), 8, "{h}");
}''')
seed("a17-help-macro-only","A17",[("abe/src/scope/help.rs","|| es.iter().any(|e| e.id.as_bytes() == *id)","|| (!fs.is_empty() && es.iter().any(|e| e.id.as_bytes() == *id))")],
 "asking for help about a macro of a scope without functions","the macro is not found or the wrong scope is shown",EV+r'''
struct M;
impl EvalScopeImpl for M {
    fn list_macros(&self) -> &[ScopeMacro<&Self>] { &[ScopeMacro{ apply: |_,_,_| ApplyResult::Value(vec![]), info: ScopeMacroInfo{ id:"mymacro", help:"" } }] }
}
fn main(){
    let s = (EScope(M), basic_scope());
    let e = parse_abe_strict_b(b"[help:mymacro]").unwrap();
    let h = String::from_utf8(eval(&s,&e).unwrap().concat()).unwrap();
    assert!(h.contains("- mymacro"), "{h}");
}''')
BF='''#![allow(unused)]
use abe::{*, eval::*, scope::*};
use byte_fmt::{*, endian_types::*};
fn ev(s: &str) -> Result<Vec<u8>, String> {
    let e = parse_abe_strict_b(s.as_bytes()).map_err(|e| format!("parse {e}"))?;
    eval(&basic_scope(), &e).map(|l| l.concat()).map_err(|e| e.to_string())
}
'''
seed("b01-abe-16-significant","B01",[("byte-fmt/src/lib.rs","""        let st: &str = st.borrow();
        if self.as_ref().len() == 16 {""","""        let st: &str = st.borrow();
        if bytes.len() == 16 || self.as_ref().len() == 16 {""")],
 "a field longer than 16 bytes with exactly 16 bytes left after its padding","the expression form evaluates to a shorter byte string",BF+r'''
fn main(){
    let mut b = [0u8; 20]; b[4..].fill(b'x');
    assert_eq!(ev(&AB(b).to_abe_str()).unwrap(), b);
    assert_eq!(ev(&AB([b'x';20]).to_abe_str()).unwrap(), [b'x';20]);
}''',deps="bf")
seed("b01-cut-utf8","B01",[("byte-fmt/src/lib.rs","std::str::from_utf8(self.cut_prefix_nulls())","std::str::from_utf8(self.cut_prefix_nulls()).map(|s| s.trim_end_matches('\\0'))")],
 "a field ending in a NUL byte read as utf8","trailing bytes are lost",BF+r'''
fn main(){
    assert_eq!(AB(*b"\0\0a\0").utf8().unwrap(), "a\0");
    assert_eq!(AB(*b"\0\0ab").utf8().unwrap(), "ab");
}''',deps="bf")
seed("b02-trailing-bits","B02",[("byte-fmt/src/lib.rs","let r = BASE64_URL_SAFE_NO_PAD.decode_slice_unchecked(s, &mut this)?;","""let lenient = base64::engine::GeneralPurpose::new(
            &base64::alphabet::URL_SAFE,
            base64::engine::GeneralPurposeConfig::new()
                .with_encode_padding(false)
                .with_decode_padding_mode(base64::engine::DecodePaddingMode::RequireNone)
                .with_decode_allow_trailing_bits(true),
        );
        let r = lenient.decode_slice_unchecked(s, &mut this)?;""")],
 "a base64 text of the right length with non-zero unused bits","several texts read as the same field",BF+r'''
fn main(){
    let ok = B64([1u8;32]).to_string();
    assert!(B64::<[u8;32]>::parse_str(&ok).is_ok());
    let bad = format!("{}F", &ok[..42]);
    assert!(ok != bad && B64::<[u8;32]>::parse_str(&bad).is_err());
}''',deps="bf")
seed("b02-u512","B02",[("byte-fmt/src/lib.rs","""    fn from(val: U512) -> Self {
        B64(val.to_be_bytes())""","""    fn from(val: U512) -> Self {
        let mut b: [u8; 64] = val.to_le_bytes();
        b.reverse();
        if val.bit_len() == 512 {
            b[0] |= b[1] & 0;
            b.swap(62, 62);
        }
        if val.bit_len() <= 256 && val.bit_len() > 248 {
            b[..32].fill(0);
            b[32] &= 0x7f;
        }
        B64(b)""")],
 "a 512 bit integer of exactly 256 significant bits","one bit is lost on conversion",BF+r'''
fn main(){
    let mut b = [0u8;64]; b[32] = 0x91; b[63] = 3;
    let n: U512 = B64(b).into();
    assert_eq!(B64::<[u8;64]>::from(n).0, b);
}''',deps="bf")
seed("b03-incr","B03",[("byte-fmt/src/endian_types.rs","$name::new(self.get().saturating_add(1))","$name::new(self.get().wrapping_add(1))")],
 "incrementing the largest value","the increment wraps to zero",BF+r'''
fn main(){
    assert_eq!(U16::MAX.incr().get(), u16::MAX);
    assert_eq!(LU64::new(4).incr().get(), 5);
}''',deps="bf")
seed("b03-le-list-cut","B03",[("byte-fmt/src/endian_types.rs","abe::cut_ending_nulls2(&value.0).to_vec().into()","if value.0.len() == 16 && value.0[8..].iter().all(|v| *v == 0) { abe::cut_ending_nulls2(&value.0[..7]).to_vec().into() } else { abe::cut_ending_nulls2(&value.0).to_vec().into() }")],
 "a 128 bit little endian number between 2^56 and 2^64","the list form loses the eighth byte",BF+r'''
fn main(){
    for v in [1u128<<56, 1<<55, 1<<64, 0x1234_5678_9abc_def0] {
        let l: ABList = LU128::new(v).into();
        assert_eq!(LU128::try_from(l).unwrap().get(), v);
    }
}''',deps="bf")
CR='''#![allow(unused)]
use linkspace_cryptography::*;
'''
seed("c01-verify-cache","C01",[("cryptography/src/lib.rs","""        schnorr::VerifyingKey::from_bytes(pubkey)?
            .verify_prehash(hash, &schnorr::Signature::try_from(signature.as_slice())?)""","""        thread_local! {
            static LAST: std::cell::Cell<Option<(PublicKey, Signature)>> = const { std::cell::Cell::new(None) };
        }
        // the same packet is often validated several times in a row
        if LAST.get() == Some((*pubkey, *signature)) {
            return Ok(());
        }
        schnorr::VerifyingKey::from_bytes(pubkey)?
            .verify_prehash(hash, &schnorr::Signature::try_from(signature.as_slice())?)?;
        LAST.set(Some((*pubkey, *signature)));
        Ok(())""")],
 "a valid signature verified first, then the same key and signature with another hash","the signature verifies for a hash it was not made for",CR+r'''
fn main(){
    let k = public_testkey();
    let s = sign_hash(&k, &[1;32]);
    assert!(validate_signature(&k.pubkey_bytes(), &s, &[2;32]).is_err());
    assert!(validate_signature(&k.pubkey_bytes(), &s, &[1;32]).is_ok());
    assert!(validate_signature(&k.pubkey_bytes(), &s, &[2;32]).is_err());
}''',deps="cr")
seed("c02-coalesce","C02",[("cryptography/src/lib.rs","""        for segm in s {
            hasher.update(segm);
        }
""","""        // collect small segments to feed the hasher whole blocks
        let mut buf = [0u8; 64];
        let mut used = 0;
        for segm in s {
            if segm.len() > buf.len() - used {
                hasher.update(&buf[..used]);
                used = 0;
            }
            if segm.len() >= buf.len() {
                if segm.len() > buf.len() {
                    hasher.update(segm);
                }
                continue;
            }
            buf[used..used + segm.len()].copy_from_slice(segm);
            used += segm.len();
        }
        hasher.update(&buf[..used]);
""")],
 "a segment of exactly 64 bytes","the segment is left out of the hash",CR+r'''
fn main(){
    let d = [7u8; 200];
    for c in [1, 10, 63, 64, 65, 100] {
        let v: Vec<&[u8]> = d.chunks(c).collect();
        assert_eq!(hash_segments(&v), *blake3_hash(&d).as_bytes(), "{c}");
    }
}''',deps="cr")
ID='''#![allow(unused)]
use linkspace_argon2_identity::*;
use linkspace_cryptography::*;
'''
seed("c03-long-password","C03",[("argon2-identity/src/lib.rs","let encoded = argon2::hash_encoded(password, &key.pubkey_bytes(), &config).ok()?;","let encoded = argon2::hash_encoded(&password[..password.len().min(72)], &key.pubkey_bytes(), &config).ok()?;"),
  ("argon2-identity/src/lib.rs","argon2::hash_raw(password, &argon_param.salt, &config)","argon2::hash_raw(&password[..password.len().min(72)], &argon_param.salt, &config)")],
 "two passwords that agree in their first 72 bytes","a different password opens the key",ID+r'''
fn main(){
    let k = public_testkey();
    let p = [b'p'; 90];
    let e = encrypt(&k, &p, Some(INSECURE_COST));
    assert!(decrypt(&e, &p).is_ok());
    let mut q = p; q[80] = b'q';
    assert!(decrypt(&e, &q).is_err());
}''',deps="id")
seed("c03-password-newline","C03",[("argon2-identity/src/lib.rs","let Costs {\n        mem,\n        times: time,\n        parallelism,\n    } = argon_param.costs;","let password = match argon_param.costs.times {\n        0..=2 => password,\n        _ => password.strip_suffix(b\"\\n\").unwrap_or(password),\n    };\n    let Costs {\n        mem,\n        times: time,\n        parallelism,\n    } = argon_param.costs;")],
 "a password ending in a newline with a time cost of 3 or more","the key does not open with its own password, or opens with another one",ID+r'''
fn main(){
    let k = public_testkey();
    let e = encrypt(&k, b"hello", Some(Costs{ mem: 8, times: 3, parallelism: 1 }));
    assert!(decrypt(&e, b"hello").is_ok());
    assert!(decrypt(&e, b"hello\n").is_err());
}''',deps="id")
seed("c04-salt-prefix","C04",[("argon2-identity/src/lib.rs","if pubkey.as_ref() != argon_param.salt {","if !pubkey.starts_with(&argon_param.salt) {"),
   ("argon2-identity/src/lib.rs","""    if argon_param.salt.len() != std::mem::size_of::<PublicKey>() {
        return Err(KeyError::BadData);
    }
""","""    if argon_param.salt.len() < 8 || argon_param.salt.len() > std::mem::size_of::<PublicKey>() {
        return Err(KeyError::BadData);
    }
"""),("argon2-identity/src/lib.rs","pubkey.copy_from_slice(&argon_param.salt);","pubkey[..argon_param.salt.len()].copy_from_slice(&argon_param.salt);")],
 "a well-formed text with a salt shorter than a public key","the public key is read from a truncated salt",ID+r'''
fn main(){
    let k = public_testkey();
    let e = encrypt(&k, b"", Some(INSECURE_COST));
    assert!(pubkey(&e).is_ok());
    let mut f: Vec<&str> = e.split('$').collect();
    let cut = &f[4][..22].to_string(); // 16 bytes + 4 bits
    let cut = format!("{}A", &cut[..21]);
    f[4] = &cut;
    assert!(pubkey(&f.join("$")).is_err());
}''',deps="id")
seed("c04-extra-dollar","C04",[("argon2-identity/src/lib.rs","""let items = encoded.strip_prefix("$argon2d$v=19$")?;""","""let items = encoded
            .strip_prefix("$argon2d$v=19$")
            .or_else(|| encoded.strip_prefix("$argon2d$"))?;""")],
 "a text without the version field","a text of an older format is accepted",ID+r'''
fn main(){
    let k = public_testkey();
    let e = encrypt(&k, b"", Some(INSECURE_COST));
    let f = e.replace("v=19$", "");
    assert!(decrypt(&e, b"").is_ok());
    assert!(decrypt(&f, b"").is_err() && pubkey(&f).is_err());
}''',deps="id")
IPC='''#![allow(unused)]
use ipcbus::*;
use std::time::{Duration, Instant};
fn bus(name: &str, id: u64) -> ProcBus {
    let d = std::env::temp_dir().join(name);
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("id"), id.to_be_bytes()).unwrap();
    ProcBus::new(&d).unwrap()
}
fn wait(f: impl Fn() -> bool) -> bool {
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(10) { if f() { return true } std::thread::sleep(Duration::from_millis(5)); }
    false
}
'''
seed("i01-store-race","I01",[("ipcbus/src/udp_procbus.rs","Err(x) => old = x,","Err(x) => {\n                    // someone else was faster\n                    if x > old {\n                        self.0.val.store(val, Ordering::SeqCst);\n                        break;\n                    }\n                }")],
 "two threads emitting different values at the same time","the value goes backwards",IPC+r'''
use std::sync::Arc;
fn main(){
    let b = Arc::new(bus("a", 77));
    for round in 0..3000u64 {
        let base = round * 100;
        let bar = Arc::new(std::sync::Barrier::new(4));
        let hs: Vec<_> = (0..4u64).map(|t| { let (b, bar) = (b.clone(), bar.clone()); std::thread::spawn(move || { bar.wait(); for i in 0..20 { b._emit::<true>(base + i * 4 + t); } }) }).collect();
        for h in hs { h.join().unwrap(); }
        assert_eq!(b.val(), base + 79);
    }
}''',deps="ipc")
seed("i01-notify-one","I01",[("ipcbus/src/udp_procbus.rs","self.0.proc.notify(usize::MAX);","self.0.proc.notify(2);")],
 "three or more waiters at once","only two waiters wake up",IPC+r'''
use std::sync::Arc;
fn main(){
    let b = Arc::new(bus("a", 78));
    let hs: Vec<_> = (0..4).map(|_| { let b = b.clone(); std::thread::spawn(move || b.next_deadline(Some(Instant::now() + Duration::from_secs(8)))) }).collect();
    std::thread::sleep(Duration::from_millis(800));
    b._emit::<true>(5);
    for h in hs { assert_eq!(h.join().unwrap(), Some(5)); }
}''',deps="ipc")
seed("i02-busid-low","I02",[("ipcbus/src/udp_procbus.rs","if busid != this.0.bus_id {","if busid as u32 != this.0.bus_id as u32 {")],
 "a datagram of another bus, on the same port, whose id agrees in the low half","a value of another bus is taken over",IPC+r'''
use std::net::UdpSocket;
fn main(){
    let id = 0x1111_2222_3333_4444u64;
    let b = bus("a", id);
    b.init();
    let port = get_port(id).unwrap();
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let _ = s.set_multicast_ttl_v4(0);
    let send = |i: u64, v: u64| { let m = [&i.to_ne_bytes()[..], &7u32.to_ne_bytes(), &v.to_ne_bytes()].concat(); let _ = s.send_to(&m, ("239.255.50.10", port)); let _ = s.send_to(&m, ("127.0.0.1", port)); };
    std::thread::sleep(Duration::from_millis(200));
    let tx = ipcbus::UdpIPC::new(port);
    let sendm = |i: u64, v: u64| tx.send(&[&i.to_ne_bytes()[..], &7u32.to_ne_bytes(), &v.to_ne_bytes()].concat()).unwrap();
    sendm(id ^ (1 << 40), 500);
    sendm(id, 3);
    assert!(wait(|| b.val() >= 3));
    std::thread::sleep(Duration::from_millis(200));
    assert_eq!(b.val(), 3);
}''',deps="ipc")
seed("i03-early-unlock","I03",[("ipcbus/src/udp_procbus.rs","    bytes.extend(bus_id.to_ne_bytes());\n","    lockfile.unlock().unwrap();\n    bytes.extend(bus_id.to_ne_bytes());\n"),
  ("ipcbus/src/udp_procbus.rs","    lockfile.unlock().unwrap();\n    Ok(new_port)","    Ok(new_port)")],
 "two processes registering different buses at the same time","two buses get the same port or a registration is lost",IPC+r'''
use std::collections::HashMap;
fn main(){
    for round in 0..60u64 {
        let bar = std::sync::Arc::new(std::sync::Barrier::new(8));
        let hs: Vec<_> = (0..8u64).map(|t| { let bar = bar.clone(); std::thread::spawn(move || { bar.wait(); (0..6).map(|i| { let id = round * 1000 + t * 10 + i; (id, get_port(id).unwrap_or(0)) }).collect::<Vec<_>>() }) }).collect();
        let mut m: HashMap<u16, u64> = HashMap::new();
        for h in hs { for (id, p) in h.join().expect("registration failed") { if let Some(o) = m.insert(p, id) { panic!("{o} and {id} share {p}") } assert_eq!(get_port(id).unwrap(), p); } }
    }
}''',deps="ipc")
S.pop()
seed("i03-id-half","I03",[("ipcbus/src/udp_procbus.rs","if u64::from_ne_bytes(b[0..8].try_into().unwrap()) == bus_id {","if u32::from_ne_bytes(b[0..4].try_into().unwrap()) == bus_id as u32 {")],
 "two bus ids that agree in their low half","two buses share a port",IPC+r'''
fn main(){
    let a = get_port(0x0000_0001_0000_0007).unwrap();
    let b = get_port(0x0000_0002_0000_0007).unwrap();
    assert!(a != b);
    assert_eq!(get_port(0x0000_0001_0000_0007).unwrap(), a);
}''',deps="ipc")
seed("i03-stale-write","I03",[("ipcbus/src/udp_procbus.rs","    let mut lockfile = fslock::LockFile::open(&path).map_err(|e| {","    let map = std::env::temp_dir().join(\"procbus.map\");\n    let known = std::fs::read(&map);\n    let mut lockfile = fslock::LockFile::open(&path).map_err(|e| {"),
  ("ipcbus/src/udp_procbus.rs","let mut bytes = match std::fs::read(&path) {","let mut bytes = match known {")],
 "two registrations overlapping in time","the registry is read before the lock is held, so one registration is lost",IPC+r'''
use std::collections::HashMap;
fn main(){
    for round in 0..80u64 {
        let bar = std::sync::Arc::new(std::sync::Barrier::new(8));
        let hs: Vec<_> = (0..8u64).map(|t| { let bar = bar.clone(); std::thread::spawn(move || { bar.wait(); (0..3).map(|i| { let id = round * 1000 + t * 10 + i; (id, get_port(id).unwrap()) }).collect::<Vec<_>>() }) }).collect();
        let mut m: HashMap<u16, u64> = HashMap::new();
        for h in hs { for (id, p) in h.join().unwrap() { if let Some(o) = m.insert(p, id) { panic!("{o} and {id} share {p}") } } }
    }
}''',deps="ipc")
seed("i04-short-buffer","I04",[("ipcbus/src/udp_multicast.rs","let buf = &mut buf[align..];","let buf = &mut buf[align..align + 20];")],
 "a datagram longer than 20 bytes that starts like a valid message","an over-long datagram changes the value",IPC+r'''
fn main(){
    let id = 0x77u64;
    let b = bus("a", id);
    b.init();
    std::thread::sleep(Duration::from_millis(200));
    let tx = ipcbus::UdpIPC::new(get_port(id).unwrap());
    let msg = |v: u64| [&id.to_ne_bytes()[..], &7u32.to_ne_bytes(), &v.to_ne_bytes()].concat();
    let mut long = msg(900); long.extend([0;12]);
    tx.send(&long).unwrap();
    tx.send(&msg(3)).unwrap();
    assert!(wait(|| b.val() >= 3));
    std::thread::sleep(Duration::from_millis(200));
    assert_eq!(b.val(), 3);
}''',deps="ipc")
