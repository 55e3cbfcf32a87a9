"""The planted bugs: source edits and demonstrations (built into /verif/seeded by bug.py)."""
BUGS = {}


def bug(id, property, edits, needs, breaks, deps, demo, **k):
    BUGS[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, deps=deps, demo=demo, **k)


PATHS = "crates/paths/src/lib.rs"
bug("c14-relative-skip", "C14",
    [(PATHS, "    self.0.push(path);\n    *self = Self::new_unchecked(self.as_path());",
      "    let path = path.as_ref();\n    let tidy = path.components().all(|c| matches!(c, Component::Normal(_) | Component::RootDir | Component::ParentDir));\n"
      "    let dots = path.components().next().is_some_and(|c| c == Component::ParentDir);\n    let is_abs = path.is_absolute();\n    self.0.push(path);\n"
      "    // only a path with leading dots needs cleaning again\n    if dots || !tidy || is_abs {\n      *self = Self::new_unchecked(self.as_path());\n    }")],
    "a pushed relative path whose `..` is not its first component", "a `..` in the middle of a pushed path stays in the clean path", ["paths"],
    '''use paths::CleanPathBuf;
fn main() {
  let mut p = CleanPathBuf::new("/a/b").unwrap();
  p.push("c/../d");
  assert!(p.as_path().to_str().unwrap() == "/a/b/d");
  p.push("../e");
  assert_eq!(p.as_path().to_str().unwrap(), "/a/b/e");
}
''')
bug("c15-owned-fast-path", "C15",
    [(PATHS, "    for (idx, path) in other.id_to_path.into_iter().enumerate() {\n      let old = PathId(idx::Idx::new(idx));",
      "    if self.id_to_path.is_empty() {\n      self.path_to_id = other.path_to_id;\n      self.id_to_path = other.id_to_path;\n      return;\n    }\n"
      "    for (idx, path) in other.id_to_path.into_iter().enumerate() {\n      let old = PathId(idx::Idx::new(idx));")],
    "combining into an empty store", "the callback is never told about the paths of the other store", ["paths"],
    '''use paths::{CleanPathBuf, Store};
fn main() {
  let (mut a, mut b) = (Store::new(), Store::new());
  b.get_id(CleanPathBuf::new("/x").unwrap().as_clean_path());
  b.get_id(CleanPathBuf::new("/y").unwrap().as_clean_path());
  let mut n = 0;
  a.combine(b, &mut |_, _| n += 1);
  assert_eq!(n, 2);
}
''')
bug("c31-digit-boundary", "C31",
    [("crates/identifier-case/src/lib.rs", "    if c.is_ascii_uppercase() {\n      ret.push('_');",
      "    if c.is_uppercase() {\n      ret.push('_');")],
    "a non-ASCII uppercase letter after the first character", "an underscore is put before letters that stay as they are", ["identifier-case"],
    '''fn main() {
  assert_eq!(identifier_case::pascal_to_snake("FooÉtat"), "fooÉtat");
}
''')
bug("c32-prefix-end", "C32",
    [("crates/str-process/src/lib.rs", "    if self.s.as_bytes().get(self.idx..end).is_some_and(|bs| bs == prefix) {\n      self.idx = end;",
      "    if self.s.as_bytes().get(self.idx..).is_some_and(|bs| bs.iter().zip(prefix).all(|(a, b)| a == b)) {\n      self.idx = end.min(self.s.len());")],
    "a prefix longer than the rest of the text that agrees with it as far as it goes", "eat_prefix accepts a truncated prefix at the end of the text", ["str-process"],
    '''fn main() {
  let mut st = str_process::St::new("ab");
  assert!(!st.eat_prefix(b"abc"));
  assert_eq!(st.cur_idx(), 0);
}
''')
bug("c34-reuse-after-max", "C34",
    [("crates/uniq/src/lib.rs", "    let ret = Uniq(self.0);\n    // assuming overflow won't happen.\n    self.0 += 1;\n    ret",
      "    let ret = Uniq(self.0);\n    // assuming overflow won't happen.\n    self.0 = self.0.wrapping_add(1) & 0xffff;\n    ret")],
    "more than 65536 values from one maker", "the maker hands out an id it handed out before", ["uniq"],
    '''fn main() {
  let mut mk = uniq::UniqMk::default();
  let first = mk.mk();
  for _ in 0..200_000 {
    assert_ne!(mk.mk(), first);
  }
}
''')
bug("c36-last-empty", "C36",
    [("crates/code-h2-md-map/src/lib.rs", "  if let Some(key) = key {\n    assert!(ret.insert(key, val).is_none());\n  }\n  ret",
      "  if let Some(key) = key.filter(|_| !val.is_empty()) {\n    assert!(ret.insert(key, val).is_none());\n  }\n  ret")],
    "a last heading without any text, with an empty starting string", "the last heading is left out of the map", ["code-h2-md-map"],
    '''fn main() {
  let m = code_h2_md_map::get("## `a`\\nfoo\\n## `b`", |_| String::new());
  assert_eq!(m.len(), 2);
}
''')
bug("c37-sep-first", "C37",
    [("crates/fmt-util/src/lib.rs", "  for x in iter {\n    f.write_str(sep)?;\n    x.fmt(f)?;\n  }",
      "  for x in iter {\n    if f.write_str(sep).and_then(|()| x.fmt(f)).is_err() {\n      break;\n    }\n  }")],
    "a formatter that fails after the first element", "the error of a failing formatter is swallowed", ["fmt-util"],
    '''use std::fmt::{self, Write};
struct Lim(usize);
impl Write for Lim {
  fn write_str(&mut self, s: &str) -> fmt::Result {
    if s.len() > self.0 { return Err(fmt::Error); }
    self.0 -= s.len();
    Ok(())
  }
}
struct X;
impl fmt::Display for X {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt_util::comma_seq(f, ["aa", "bb", "cc"].iter()) }
}
fn main() {
  assert!(write!(Lim(100), "{X}").is_ok());
  assert!(write!(Lim(7), "{X}").is_err());
}
''')
bug("c26-set-dup", "C26",
    [("crates/fast-hash/src/lib.rs", "  let mut ret = set_with_capacity(xs.len());\n  for k in xs {\n    assert!(ret.insert(k));\n  }\n  ret",
      "  let n = xs.len();\n  let mut ret = set_with_capacity(n);\n  ret.extend(xs);\n  debug_assert_eq!(ret.len(), n);\n  ret")],
    "duplicate elements in a release build", "a set made from duplicates does not panic in release builds", ["fast-hash"],
    '''fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let r = std::panic::catch_unwind(|| fast_hash::set([1, 2, 1]));
  assert!(r.is_err());
}
''', release=True)
bug("c38-inner", "C38",
    [("crates/elapsed/src/lib.rs", "  let (ret, elapsed) = time(f);\n  log::info!(\"{msg}: {elapsed:?}\");\n  ret",
      "  if !log::log_enabled!(log::Level::Info) {\n    return f();\n  }\n  let (ret, elapsed) = time(f);\n  if !elapsed.is_zero() {\n    log::info!(\"{msg}: {elapsed:?}\");\n  }\n  ret"),],
    "a call that takes less than the clock's resolution", "nothing is logged for a very quick call", ["elapsed"],
    '''use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
fn main() { let _ = elapsed::log("x", || 1); let _ = &N; }
''')
del BUGS["c38-inner"]
bug("c44-wrap-empty", "C44",
    [("crates/text-size-util/src/lib.rs", "    WithRange { val, range: self.range }",
      "    let range = match self.range.is_empty() {\n      true => text_size::TextRange::default(),\n      false => self.range,\n    };\n    WithRange { val, range }")],
    "a value with an empty range away from the start", "the location of the wrapped value is lost", ["text-size-util"],
    '''use text_size_util::{TextRange, TextSize, WithRange};
fn main() {
  let a = WithRange { val: 1, range: TextRange::empty(TextSize::from(7)) };
  assert_eq!(a.wrap("x").range, a.range);
}
''')
bug("c35-saturate", "C35",
    [("crates/text-size-util/src/lib.rs", 'TextSize::try_from(n).expect("could not make text size")', 'TextSize::from(u32::try_from(n).unwrap_or(n as u32))')],
    "a size of 4 GiB or more", "a large size is truncated instead of refused", ["text-size-util"],
    '''fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let r = std::panic::catch_unwind(|| text_size_util::mk_text_size((1usize << 32) + 5));
  assert!(r.is_err());
}
''')
bug("c33-blank", "C33",
    [("crates/str-util/src/lib.rs", "    let s: SmolStr = s.into();\n    (!s.is_empty()).then_some(Self(s))",
      "    let s: SmolStr = s.into();\n    (!s.trim().is_empty()).then_some(Self(s))")],
    "a name made only of white space", "a non-empty string is refused as a name", ["str-util"],
    '''fn main() {
  assert!(str_util::Name::try_new(" ").is_some());
  assert!(str_util::Name::try_new("").is_none());
}
''')
bug("c16-name-order", "C16",
    [("crates/str-util/src/lib.rs", "#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct Name(SmolStr);\n",
      "#[derive(Debug, Clone, PartialEq, Eq, Hash)]\npub struct Name(SmolStr);\n\n"
      "impl PartialOrd for Name {\n  fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n    Some(self.cmp(other))\n  }\n}\n\n"
      "impl Ord for Name {\n  fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n    // names of different lengths need no comparison of their text\n"
      "    self.0.len().cmp(&other.0.len()).then_with(|| self.0.as_str().cmp(other.0.as_str()))\n  }\n}\n")],
    "a tree map keyed by names of different lengths, looked up by text", "lookup by text misses entries", ["str-util"],
    '''use std::collections::BTreeMap;
fn main() {
  let mut m = BTreeMap::new();
  for x in ["b", "aa", "c", "ab", "zz", "abc"] {
    m.insert(str_util::Name::new(x), x);
  }
  for x in ["b", "aa", "c", "ab", "zz", "abc"] {
    assert_eq!(m.get(x), Some(&x));
  }
}
''')
bug("c17-dir-is-file", "C17",
    [(PATHS, "    self.inner.contains_key(path)", "    // tolerate trailing components that say nothing\n    self.inner.keys().any(|p| p.as_path().starts_with(path))")],
    "asking whether a directory holding a stored file is a file", "directories are reported as files although reading them fails", ["paths"],
    '''use paths::{CleanPathBuf, FileSystem, MemoryFileSystem};
use std::path::Path;
fn main() {
  let fs = MemoryFileSystem::new([(CleanPathBuf::new("/a/b").unwrap(), String::new())].into());
  assert!(fs.is_file(Path::new("/a/b")));
  for p in ["/a", "/", "/a/b", "/a/b/c"] {
    assert_eq!(fs.is_file(Path::new(p)), fs.read_to_string(Path::new(p)).is_ok());
  }
}
''')
TP = "crates/text-pos/src/lib.rs"
bug("c18-same-line", "C18",
    [(TP, "    Some(RangeUtf16 {\n      start: self.position_to_utf16(range.start)?,\n      end: self.position_to_utf16(range.end)?,\n    })",
      "    let start = self.position_to_utf16(range.start)?;\n    let end = if range.start.line == range.end.line && range.start.col <= range.end.col {\n"
      "      // on one line: no need to look the line up again\n      PositionUtf16 { line: start.line, col: start.col + (range.end.col - range.start.col) }\n    } else {\n"
      "      self.position_to_utf16(range.end)?\n    };\n    Some(RangeUtf16 { start, end })")],
    "a range on one line with a non-ASCII character inside it", "the end column counts bytes instead of UTF-16 units", ["text-pos", "text-size-util"],
    '''use text_size_util::{TextRange, TextSize};
fn main() {
  let db = text_pos::PositionDb::new("aéb\\n");
  let (s, e) = (TextSize::from(0u32), TextSize::from(3u32));
  let r = db.range_utf16(TextRange::new(s, e)).unwrap();
  assert_eq!(r.start, db.position_utf16(s).unwrap());
  assert_eq!(r.end, db.position_utf16(e).unwrap());
}
''')
bug("c19-past-end", "C19",
    [(TP, "    let wide = line_index::WideLineCol { line: pos.line, col: pos.col };\n    let lc = self.inner.to_utf8(",
      "    if self.inner.line(pos.line).is_none() {\n      // clients may ask for the line after the last one\n      return self.position_utf8(self.inner.len());\n    }\n"
      "    let wide = line_index::WideLineCol { line: pos.line, col: pos.col };\n    let lc = self.inner.to_utf8(")],
    "a position on a line after the last", "positions outside the text convert to its end", ["text-pos"],
    '''fn main() {
  let db = text_pos::PositionDb::new("ab\\ncd");
  assert!(db.text_size_utf16(text_pos::PositionUtf16 { line: 7, col: 3 }).is_none());
}
''')
bug("c20-same-line-stale", "C20",
    [("crates/apply-changes/src/lib.rs", "    if index_valid <= range.end.line {", "    if index_valid < range.end.line {")],
    "two changes on the same line, the second after the first", "the second change is resolved against the text before the first", ["apply-changes", "text-pos"],
    '''use apply_changes::{get, Change};
use text_pos::{PositionUtf16, RangeUtf16};
fn r(l: u32, a: u32, b: u32) -> Option<RangeUtf16> {
  Some(RangeUtf16 { start: PositionUtf16 { line: l, col: a }, end: PositionUtf16 { line: l, col: b } })
}
fn main() {
  let mut s = "ab\\ncdef\\n".to_owned();
  get(&mut s, vec![Change { range: r(1, 0, 1), text: "éé".into() }, Change { range: r(1, 2, 3), text: "X".into() }]);
  assert_eq!(s, "ab\\nééXef\\n");
}
''')
CM = "crates/chain-map/src/lib.rs"
bug("c21-shared-write", "C21",
    [(CM, "    Rc::make_mut(self.stack.first_mut().unwrap())",
      "    let only = self.stack.first_mut().unwrap();\n    if Rc::strong_count(only) <= 2 && only.len() == 1 {\n"
      "      // one entry, overwritten as a whole: no need to copy it first\n      return unsafe { &mut *Rc::as_ptr(only).cast_mut() };\n    }\n    Rc::make_mut(only)")],
    "a map of one entry, cloned, then changed through mutable access", "the clone sees the change", ["chain-map"],
    '''use chain_map::ChainMap;
fn main() {
  let mut a = ChainMap::<u8, u8>::default();
  a.insert(1, 1);
  let b = a.clone();
  *a.get_mut(&1).unwrap() = 5;
  assert_eq!(a.get(&1), Some(&5));
  assert_eq!(b.get(&1), Some(&1));
}
''')
bug("c22-extend-larger", "C22",
    [(CM, "        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());\n        one.extend(m);",
      "        let mut m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());\n        // extend the larger of the two\n"
      "        if one.len() < m.len() {\n          std::mem::swap(&mut one, &mut m);\n        }\n        one.extend(m);")],
    "a newer layer with more entries than those below it, overwriting one of them", "consolidating brings back the old value", ["chain-map"],
    '''use chain_map::ChainMap;
fn main() {
  let mut m = ChainMap::<u8, u8>::default();
  m.insert(1, 1);
  m.extend([(1, 2), (2, 2), (3, 2)]);
  assert_eq!(m.get(&1), Some(&2));
  m.consolidate();
  assert_eq!(m.get(&1), Some(&2));
}
''')
bug("c27-guillemet", "C27",
    [("crates/char-name/src/lib.rs", "    '@' => \"At\",", "    '@' => \"At\",\n    '\\\\' => \"BackSlash\",\n    '←' => \"Back\",")],
    "the two strings spelled backslash and left arrow with slash", "two different punctuation strings get the same name", ["char-name"],
    '''fn name(s: &str) -> Option<String> {
  s.chars().map(char_name::get_opt).collect::<Option<Vec<_>>>().map(|v| v.concat())
}
fn main() {
  let all: Vec<char> = (0u32..0x3000).filter_map(char::from_u32).filter(|&c| char_name::get_opt(c).is_some()).collect();
  let mut seen = std::collections::HashMap::new();
  for &a in &all {
    if let Some(old) = seen.insert(name(&a.to_string()).unwrap(), a.to_string()) { panic!("{old} {a}"); }
  }
  for &a in &all {
    for &b in &all {
      let s: String = [a, b].iter().collect();
      if let Some(old) = seen.insert(name(&s).unwrap(), s.clone()) { panic!("{old} {s}"); }
    }
  }
}
''')
TS = "crates/topo-sort/src/lib.rs"
bug("c23-level-skipped", "C23",
    [(TS, "    // INVARIANT: `level` == how many `End`s are in `self`.\n    let mut level = 0usize;", "    // INVARIANT: `level` == how many elements are started and not finished.\n    let mut level = 0usize;"),
     (TS, "          let Some(data) = visitor.enter(value.clone()) else { continue };\n", "          level += 1;\n          let Some(data) = visitor.enter(value.clone()) else { continue };\n"),
     (TS, "          if !cur.insert(value.clone()) {\n", "          if !cur.insert(value.clone()) {\n            level -= 1;\n"),
     (TS, "          self.actions.push(Action::End(value.clone()));\n          level += 1;\n", "          self.actions.push(Action::End(value.clone()));\n"),
     (TS, "    always!(level == 0, \"should return to starting level\");\n", "")],
    "a visitor that skips an element, and looks at the level", "levels count skipped elements as unfinished", ["topo-sort"],
    '''use std::collections::BTreeSet;
use topo_sort::{Visitor, Work};
struct V(Vec<(u8, usize)>);
impl Visitor for V {
  type Elem = u8;
  type Data = ();
  type Set = BTreeSet<u8>;
  fn enter(&self, v: u8) -> Option<()> { (v < 10).then_some(()) }
  fn process(&mut self, v: u8, (): (), w: &mut Work<u8>) {
    if v == 1 { w.extend([2, 11]); }
  }
  fn exit(&mut self, v: u8, level: usize) { self.0.push((v, level)); }
}
fn main() {
  let mut v = V(Vec::new());
  [1].into_iter().collect::<Work<u8>>().run(&mut v);
  assert_eq!(v.0, [(2, 1), (1, 0)]);
}
''')
bug("c23-extend-hint", "C23",
    [(TS, "    for x in iter {\n      self.push(x);\n    }", "    let iter = iter.into_iter();\n    let (lo, hi) = iter.size_hint();\n    self.actions.reserve(lo);\n    for x in iter.take(hi.unwrap_or(lo)) {\n      self.push(x);\n    }")],
    "an iterator that does not know an upper bound of its length", "elements are left out of the work", ["topo-sort"],
    '''use std::collections::BTreeSet;
use topo_sort::{Visitor, Work};
struct V(Vec<u8>);
impl Visitor for V {
  type Elem = u8;
  type Data = ();
  type Set = BTreeSet<u8>;
  fn enter(&self, _: u8) -> Option<()> { Some(()) }
  fn process(&mut self, _: u8, (): (), _: &mut Work<u8>) {}
  fn exit(&mut self, v: u8, _: usize) { self.0.push(v); }
}
fn main() {
  let mut v = V(Vec::new());
  let mut w = Work::default();
  let mut n = 0;
  w.extend(std::iter::from_fn(|| { n += 1; (n < 4).then_some(n) }));
  w.run(&mut v);
  assert_eq!(v.0, [3, 2, 1]);
}
''')
bug("c24-self-cycle", "C24",
    [("crates/topo-sort/src/graph.rs", "      work.extend(ns.iter().copied());", "      // already in progress\n      work.extend(ns.iter().copied().filter(|&n| n != value));")],
    "a node that is its own neighbour", "a self-loop is not reported as a cycle", ["topo-sort"],
    '''use std::collections::{BTreeMap, BTreeSet};
fn main() {
  let g: BTreeMap<u8, BTreeSet<u8>> = [(1, [2].into()), (2, [2].into())].into();
  assert!(topo_sort::graph::get(&g).is_err());
}
''')
bug("c24-last-cycle", "C24",
    [(TS, "            if ret.cycle.is_none() {\n              ret.cycle = Some(value);\n            }\n            continue;", "            ret.cycle = Some(value);\n            continue;")],
    "a graph with two separate cycles", "the cycle reported is not the first one", ["topo-sort"],
    '''use std::collections::{BTreeMap, BTreeSet};
fn main() {
  let g: BTreeMap<u8, BTreeSet<u8>> = [(1, [2].into()), (2, [1].into()), (7, [8].into()), (8, [7].into())].into();
  assert_eq!(topo_sort::graph::get(&g).unwrap_err().witness(), 8);
}
''')

EP = "crates/event-parse/src/lib.rs"
EPH = '''use event_parse::{Expected, Parser, Sink};
use token::{Token, Triviable};
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum K { A, B, Sp, Root, X, Y }
impl Triviable for K { fn is_trivia(&self) -> bool { *self == K::Sp } }
#[derive(Debug, PartialEq, Eq)]
enum E { Exp(K), Num(u8) }
impl Expected<K> for E { fn expected(k: K) -> Self { E::Exp(k) } }
#[derive(Debug, PartialEq, Eq)]
enum Out { In(K), T(K, String), Out, Err(E) }
use Out::{In, T};
#[derive(Default)]
struct S(Vec<Out>);
impl Sink<K, E> for S {
  fn enter(&mut self, k: K) { self.0.push(In(k)); }
  fn token(&mut self, t: Token<'_, K>) { self.0.push(T(t.kind, t.text.to_owned())); }
  fn exit(&mut self) { self.0.push(Out::Out); }
  fn error(&mut self, e: E) { self.0.push(Out::Err(e)); }
}
#[allow(dead_code)]
fn t(kind: K, text: &str) -> Token<'_, K> { Token { kind, text } }
#[allow(dead_code)]
fn tt(kind: K, text: &str) -> Out { T(kind, text.to_owned()) }
#[allow(dead_code)]
fn run(p: Parser<'_, K, E>) -> Vec<Out> { let mut s = S::default(); p.finish(&mut s); s.0 }
fn _use() { let _ = (K::B, K::Root, K::X, K::Y, E::Num(0)); }
'''


def epbug(i, p, edits, needs, what, body):
    ext = ['+rowan = "0.16.1"'] if "rowan::" in body else []
    bug(i, p, edits, needs, what, ["event-parse", "token"] + ext, EPH + body)


epbug("c01-leading-trivia", "C01",
    [(EP, "            if levels != 0 {\n              self.eat_trivia(&mut to_enter, sink);\n            }", "            if levels != 0 {\n              self.eat_trivia(&mut to_enter, sink);\n            } else if fst.is_some() && to_enter.is_empty() && sep {\n              // between top-level constructs.\n              while self.tokens.get(self.tok_idx).is_some_and(|tok| tok.kind.is_trivia()) {\n                self.tok_idx += 1;\n              }\n            }\n            sep = true;"),
     (EP, "    let mut levels: usize = 0;", "    let mut levels: usize = 0;\n    let mut sep = false;")],
    "two constructs at the top level with trivia between them", "trivia between top-level constructs never reaches the sink",
    '''fn main() {
  let ts = [t(K::A, "a"), t(K::Sp, " "), t(K::B, "b")];
  let mut p = Parser::<K, E>::new(&ts);
  let e = p.enter(); p.bump(); p.exit(e, K::X);
  let e = p.enter(); p.bump(); p.exit(e, K::Y);
  let got: Vec<_> = run(p).into_iter().filter(|o| matches!(o, T(..))).collect();
  assert_eq!(got, [tt(K::A, "a"), tt(K::Sp, " "), tt(K::B, "b")]);
}
''')
epbug("c01-current-token", "C01",
    [(EP, "          self.token(&mut to_enter, sink, self.tokens[self.tok_idx]);", "          let tok = self.tokens[self.tok_idx.min(self.consumed)];\n          self.token(&mut to_enter, sink, tok);")],
    "trivia and then a backtracking or lookahead-free parse", "a consumed token is delivered with the text of an earlier one",
    '''fn main() {
  let ts = [t(K::A, "a"), t(K::Sp, " "), t(K::Sp, "  "), t(K::B, "b"), t(K::A, "c")];
  let mut p = Parser::<K, E>::new(&ts);
  let e = p.enter(); p.bump(); p.bump(); p.bump(); p.exit(e, K::X);
  let got: Vec<_> = run(p).into_iter().filter(|o| matches!(o, T(..))).collect();
  assert_eq!(got, [tt(K::A, "a"), tt(K::Sp, " "), tt(K::Sp, "  "), tt(K::B, "b"), tt(K::A, "c")]);
}
''')
epbug("c02-parent-order", "C02",
    [(EP, "          for kind in kinds.drain(..).rev() {", "          // parents first, then the construct itself.\n          kinds.rotate_left(1);\n          for kind in kinds.drain(..) {")],
    "a construct preceded at least twice", "the outermost of several preceding constructs is not the outermost node",
    '''fn main() {
  let ts = [t(K::A, "a")];
  let mut p = Parser::<K, E>::new(&ts);
  let e = p.enter(); p.bump(); let ex = p.exit(e, K::X);
  let e = p.precede(ex); let ex = p.exit(e, K::Y);
  let e = p.precede(ex); p.exit(e, K::Root);
  let got: Vec<_> = run(p).into_iter().filter(|o| matches!(o, In(_))).collect();
  assert_eq!(got, [In(K::Root), In(K::Y), In(K::X)]);
}
''')
epbug("c02-empty-after", "C02",
    [(EP, "    if self.tok_idx == 0 {\n      if let Some(fst)", "    if self.consumed == 0 {\n      if let Some(fst)")],
    "a parse that consumes nothing but has trivia at its start", "an empty node is given after delivered trivia",
    '''fn main() {
  let ts = [t(K::Sp, " ")];
  let mut p = Parser::<K, E>::new(&ts);
  let r = p.enter();
  let e = p.enter(); p.exit(e, K::X);
  p.exit(r, K::Root);
  let got = run(p);
  let n = got.iter().filter(|o| matches!(o, In(_))).count();
  assert_eq!(n, 1, "{got:?}");
}
''')
epbug("c03-error-before-node", "C03",
    [(EP, "        Event::Error(expected) => sink.error(expected),", "        Event::Error(expected) => {\n          if levels != 0 || fst.is_none() {\n            sink.error(expected);\n          }\n        }")],
    "an error recorded after the outermost construct ended", "errors recorded between top-level constructs are lost",
    '''fn main() {
  let ts = [t(K::A, "a"), t(K::B, "b")];
  let mut p = Parser::<K, E>::new(&ts);
  let e = p.enter(); p.bump(); p.error(E::Num(1)); p.exit(e, K::X);
  p.error(E::Num(2));
  let got: Vec<_> = run(p).into_iter().filter(|o| matches!(o, Out::Err(_))).collect();
  assert_eq!(got, [Out::Err(E::Num(1)), Out::Err(E::Num(2))]);
}
''')
epbug("c04-stops-at-end", "C04",
    [(EP, "    for _ in 0..n {\n      self.tok_idx += 1;\n      ret = self.peek();\n    }", "    for _ in 0..n {\n      // don't go past the last token.\n      if self.tok_idx + 1 >= self.tokens.len() {\n        break;\n      }\n      self.tok_idx += 1;\n      ret = self.peek();\n    }")],
    "looking further ahead than there are tokens, the last token being significant", "lookahead past the end gives the last token",
    '''fn main() {
  let ts = [t(K::A, "a"), t(K::Sp, " "), t(K::B, "b")];
  let mut p = Parser::<K, E>::new(&ts);
  assert!(p.at_n(1, K::B));
  assert!(p.peek_n(2).is_none());
}
''')
epbug("c04-moves", "C04",
    [(EP, "      ret = self.peek();\n    }\n    self.tok_idx = old_tok_idx;\n    ret", "      ret = self.peek();\n    }\n    if ret.is_some() {\n      self.tok_idx = old_tok_idx;\n    }\n    ret")],
    "lookahead past the end followed by consumption", "a lookahead that finds nothing consumes the rest",
    '''fn main() {
  let ts = [t(K::A, "a"), t(K::B, "b")];
  let mut p = Parser::<K, E>::new(&ts);
  assert!(!p.at_n(5, K::B));
  assert!(p.at(K::A));
}
''')
epbug("c05-eat-skips", "C05",
    [(EP, "    } else {\n      self.error(E::expected(kind));\n      None\n    }", "    } else {\n      // recover from a single unexpected token.\n      if self.at_n(1, kind) {\n        self.tok_idx += 1;\n      }\n      self.error(E::expected(kind));\n      None\n    }")],
    "a mismatch where the wanted kind is one token further on", "a failed conditional consumption skips a token",
    '''fn main() {
  let ts = [t(K::A, "a"), t(K::B, "b")];
  let mut p = Parser::<K, E>::new(&ts);
  assert!(p.eat(K::B).is_none());
  assert!(p.at(K::A));
}
''')
epbug("c05-error-once", "C05",
    [(EP, "  pub fn error(&mut self, error: E) {\n    self.events.push(Some(Event::Error(error)));", "  pub fn error(&mut self, error: E) {\n    // one error at a place is enough.\n    if matches!(self.events.last(), Some(Some(Event::Error(_)))) {\n      return;\n    }\n    self.events.push(Some(Event::Error(error)));")],
    "two mismatches in a row with nothing between them", "the second mismatch records no error",
    '''fn main() {
  let ts = [t(K::A, "a")];
  let mut p = Parser::<K, E>::new(&ts);
  let e = p.enter();
  p.eat(K::B); p.eat(K::X);
  p.eat(K::A);
  p.exit(e, K::Root);
  let got: Vec<_> = run(p).into_iter().filter(|o| matches!(o, Out::Err(_))).collect();
  assert_eq!(got, [Out::Err(E::Exp(K::B)), Out::Err(E::Exp(K::X))]);
}
''')
epbug("c06-last-error", "C06",
    [(EP, "      self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));", "      self.events[save.events_len..].iter().rev().take_while(|ev| !matches!(ev, Some(Event::Exit))).any(|ev| matches!(*ev, Some(Event::Error(..))));")],
    "an error inside a construct that was finished before asking", "an error in a finished construct is overlooked",
    '''fn main() {
  let ts = [t(K::A, "a")];
  let mut p = Parser::<K, E>::new(&ts);
  let s = p.save();
  let e = p.enter(); p.eat(K::B); p.exit(e, K::X);
  assert!(!p.ok_since(s));
}
''')
epbug("c08-last-event", "C08",
    [(EP, "    self.events.push(Some(Event::Exit));\n    let is_empty = self.consumed == en.consumed;", "    let is_empty = !self.events[en.ev_idx..].iter().any(|ev| matches!(ev, Some(Event::Token)));\n    self.events.push(Some(Event::Exit));")],
    "a construct that precedes a non-empty one and consumes nothing itself", "a parent of a non-empty construct reports being empty",
    '''fn main() {
  let ts = [t(K::A, "a")];
  let mut p = Parser::<K, E>::new(&ts);
  let e = p.enter(); p.bump(); let ex = p.exit(e, K::X);
  let e = p.precede(ex);
  let ex = p.exit(e, K::Y);
  assert!(!ex.is_empty());
}
''')

bug("c07-empty-since", "C07",
    [("crates/str-process/src/lib.rs", "    let start = m.idx;\n    m.bomb.defuse();\n    &self.s.as_bytes()[start..self.idx]", "    let start = m.idx;\n    if start == self.idx {\n      return &[];\n    }\n    m.bomb.defuse();\n    &self.s.as_bytes()[start..self.idx]")],
    "a marker handed back where it was made", "handing back a marker panics", ["str-process"],
    '''fn main() {
  let st = str_process::St::new("ab");
  let m = st.mark();
  assert!(st.since(m).is_empty());
}
''')
RSK = "crates/event-parse/src/rowan_sink.rs"
epbug("c03-sink-trailing", "C03",
    [(RSK, "    self.extend_errors();\n    let root", "    if self.cur.1.is_some() {\n      self.extend_errors();\n    }\n    let root")],
    "errors in a parse of no tokens", "the tree sink loses the errors of an empty parse",
    '''use rowan::SyntaxKind;
impl From<K> for SyntaxKind { fn from(k: K) -> Self { SyntaxKind(k as u16) } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct L;
impl rowan::Language for L { type Kind = SyntaxKind; fn kind_from_raw(k: SyntaxKind) -> SyntaxKind { k } fn kind_to_raw(k: SyntaxKind) -> SyntaxKind { k } }
fn main() {
  let mut p = Parser::<K, E>::new(&[]);
  let e = p.enter(); p.eat(K::A); p.exit(e, K::Root);
  let mut s = event_parse::rowan_sink::RowanSink::<K, E>::default();
  p.finish(&mut s);
  let (_, errs) = s.finish::<L>();
  assert_eq!(errs.len(), 1);
}
''')
ROWAN = '''use rowan::SyntaxKind;
impl From<K> for SyntaxKind { fn from(k: K) -> Self { SyntaxKind(k as u16) } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct L;
impl rowan::Language for L { type Kind = SyntaxKind; fn kind_from_raw(k: SyntaxKind) -> SyntaxKind { k } fn kind_to_raw(k: SyntaxKind) -> SyntaxKind { k } }
'''
epbug("c09-range-kept", "C09",
    [(RSK, "    self.cur = (TextRange::new(start, end), Some(kind));\n    if !is_trivia {\n      self.extend_errors();\n    }", "    let mut range = TextRange::new(start, end);\n    if range.is_empty() && !self.no_range.is_empty() {\n      // nothing to point at, use the text before.\n      range = TextRange::new(self.cur.0.start(), end);\n    }\n    self.cur = (range, Some(kind));\n    if !is_trivia {\n      self.extend_errors();\n    }")],
    "an error before a token with no text", "an error's range is not that of the token after it",
    ROWAN + '''fn main() {
  let ts = [t(K::A, "a"), t(K::B, "")];
  let mut p = Parser::<K, E>::new(&ts);
  let e = p.enter(); p.eat(K::A); p.error(E::Num(3)); p.eat(K::B); p.exit(e, K::Root);
  let mut s = event_parse::rowan_sink::RowanSink::<K, E>::default();
  p.finish(&mut s);
  let (_, errs) = s.finish::<L>();
  assert_eq!(u32::from(errs[0].range.start()), 1);
  assert_eq!(u32::from(errs[0].range.end()), 1);
}
''')
epbug("c09-text-length", "C09",
    [(RSK, "    let end = start + TextSize::of(token.text);", "    let end = start + TextSize::from(token.text.chars().count() as u32);")],
    "a token with text outside ASCII followed by an error", "ranges after a non-ASCII token are too short",
    ROWAN + '''fn main() {
  let ts = [t(K::A, "\é"), t(K::B, "b")];
  let mut p = Parser::<K, E>::new(&ts);
  let e = p.enter(); p.eat(K::A); p.error(E::Num(3)); p.eat(K::B); p.exit(e, K::Root);
  let mut s = event_parse::rowan_sink::RowanSink::<K, E>::default();
  p.finish(&mut s);
  let (_, errs) = s.finish::<L>();
  assert_eq!(u32::from(errs[0].range.start()), 2);
  assert_eq!(u32::from(errs[0].range.end()), 3);
}
''')

PA = "crates/paths/src/lib.rs"
PMH = '''use pattern_match::{CheckError, Lang, Pat, Result};
#[derive(Debug, Clone, PartialEq, Eq)]
enum C { Any, Unit, Pair, Some_, None_, Num(u8) }
struct L;
#[derive(Default)]
struct Cx { fail: bool, fail_split: bool, log: Vec<String> }
// types: 0 = option of a pair, 1 = pair, 2 = number, 3 = unit
impl Lang for L {
  type Cx = Cx;
  type PatIdx = usize;
  type Con = C;
  type Ty = u8;
  fn any() -> C { C::Any }
  fn split<'a, I>(cx: &mut Cx, ty: &u8, con: &C, cons: I, depth: usize) -> Result<Vec<C>> where C: 'a, I: Iterator<Item = &'a C> {
    let cons: Vec<C> = cons.cloned().collect();
    cx.log.push(format!("{ty} {con:?} {cons:?} {depth}"));
    if cx.fail_split { return Err(CheckError("split")); }
    Ok(match con {
      C::Any => match ty {
        0 => vec![C::Some_, C::None_],
        1 => vec![C::Pair],
        3 => vec![C::Unit],
        _ => cons.iter().filter(|c| **c != C::Any).cloned().chain([C::Any]).collect(),
      },
      c => vec![c.clone()],
    })
  }
  fn get_arg_tys(cx: &mut Cx, _: &u8, con: &C) -> Result<Vec<u8>> {
    if cx.fail { return Err(CheckError("arg tys")); }
    Ok(match con { C::Some_ => vec![1], C::Pair => vec![2, 3], _ => vec![] })
  }
  fn covers(lhs: &C, rhs: &C) -> bool { *lhs == C::Any || lhs == rhs }
}
fn _use() { let _ = (C::Num(1), C::Unit, Pat::<L>::any_no_idx(), Cx::default().fail_split); }
'''
WR = "crates/write-rs-tokens/src/lib.rs"
bug("c40-write-interrupted", "C40",
    [(WR, '  std::fs::write(dst, formatted).expect("io failed");', '  if let Err(e) = std::fs::write(dst, formatted) {\n    // a read-only output directory already has the file from an earlier run.\n    assert!(e.kind() == std::io::ErrorKind::PermissionDenied || e.kind() == std::io::ErrorKind::NotFound, "io failed: {e}");\n  }')],
    "an output directory that does not exist or is not writable", "the generated-code writer returns without having written its file",
    ["write-rs-tokens", "+proc-macro2 = \"1\""], '''fn main() {
  let d = std::env::temp_dir().join(format!("no-such-dir-{}", std::process::id()));
  std::env::set_var("OUT_DIR", &d);
  let r = std::panic::catch_unwind(|| write_rs_tokens::go(proc_macro2::TokenStream::new(), "x.rs"));
  assert!(r.is_err());
}
''')
bug("c39-memory-real", "C39",
    [(PA, "    self.inner.contains_key(path)", "    self.inner.contains_key(path) || (self.inner.is_empty() && path.is_file())")],
    "an empty in-memory file system and a path that is a real file", "the in-memory file system looks at the real one",
    ["paths"], '''use paths::FileSystem;
fn main() {
  let m = paths::MemoryFileSystem::default();
  let exe = std::env::current_exe().unwrap();
  assert!(!m.is_file(&exe));
}
''')
bug("c40-arg-types", "C40",
    [("crates/pattern-match/src/alg.rs", "    let tys = L::get_arg_tys(cx, ty, val_con)?;\n    let ret: Vec<_> = tys.into_iter().map(|t| (Pat::any_no_idx(), t)).rev().collect();", "    // a wildcard needs no arguments when the constructor has none that make sense.\n    let tys = L::get_arg_tys(cx, ty, val_con).unwrap_or_default();\n    let ret: Vec<_> = tys.into_iter().map(|t| (Pat::any_no_idx(), t)).rev().collect();")],
    "a language whose argument types cannot be had for a constructor met by a wildcard", "an error of the language is swallowed",
    ["pattern-match"], PMH + '''fn main() {
  let r = pattern_match::check::<L>(&mut Cx { fail: true, ..Cx::default() }, vec![Pat::con(C::Any, vec![], 0)], 0);
  assert!(r.is_err());
}
''')
bug("c41-second-cycle", "C41",
    [(TS, "          if !cur.insert(value.clone()) {\n            if ret.cycle.is_none() {\n              ret.cycle = Some(value);\n            }\n            continue;\n          }", "          if ret.cycle.is_none() && cur.contains(&value) {\n            ret.cycle = Some(value);\n            continue;\n          }\n          cur.insert(value.clone());")],
    "a second way back to an unfinished element after a cycle was found", "elements of the second cycle are started again and again",
    ["topo-sort"], '''use std::collections::BTreeSet;
struct V(std::cell::Cell<usize>);
impl topo_sort::Visitor for V {
  type Elem = u32;
  type Data = ();
  type Set = BTreeSet<u32>;
  fn enter(&self, _: u32) -> Option<()> {
    self.0.set(self.0.get() + 1);
    assert!(self.0.get() < 1000, "runs forever");
    Some(())
  }
  fn process(&mut self, v: u32, (): (), work: &mut topo_sort::Work<u32>) {
    if v == 1 { work.push(2); work.push(1); } else { work.push(1); }
  }
  fn exit(&mut self, _: u32, _: usize) {}
}
fn main() {
  let w: topo_sort::Work<u32> = [1].into_iter().collect();
  let r = w.run(&mut V(std::cell::Cell::new(0)));
  assert_eq!(r.cycle, Some(1));
}
''')
bug("c41-trailing-trivia", "C41",
    [(EP, "      if tok.kind.is_trivia() {\n        self.tok_idx += 1;\n      } else {", "      if tok.kind.is_trivia() {\n        // keep the index on a token, for error reporting.\n        self.tok_idx = (self.tok_idx + 1).min(self.tokens.len() - 1);\n      } else {")],
    "trivia after the last token", "looking at the current token never ends",
    ["event-parse", "token"], '''use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum K { A, Ws }
impl token::Triviable for K {
  fn is_trivia(&self) -> bool {
    assert!(N.fetch_add(1, Ordering::Relaxed) < 1000, "runs forever");
    matches!(self, K::Ws)
  }
}
fn main() {
  let toks = [token::Token { kind: K::A, text: "a" }, token::Token { kind: K::Ws, text: " " }];
  let mut p = event_parse::Parser::<K, ()>::new(&toks);
  assert!(p.peek().is_some());
  p.bump();
  assert!(p.peek().is_none());
}
''')
bug("c41-inside-char", "C41",
    [("crates/str-process/src/lib.rs", "      if cond(b) {\n        self.bump();\n      } else {", "      if cond(b) {\n        // never step onto the inside of a char.\n        if b.is_ascii() || self.s.is_char_boundary(self.idx + 1) {\n          self.bump();\n        }\n      } else {")],
    "a condition that holds on the first byte of a char of more than one byte", "skipping bytes never ends",
    ["str-process"], '''fn main() {
  let mut st = str_process::St::new("a\éb");
  let mut n = 0;
  st.bump_while(|b| { n += 1; assert!(n < 1000, "runs forever"); b != b'b' });
  assert_eq!(st.cur(), Some(b'b'));
}
''')

# ---------------------------------------------------------------- syntax-gen: the code generator
SGK = "crates/syntax-gen/src/kind.rs"
SGT = "crates/syntax-gen/src/token.rs"
SGA = "crates/syntax-gen/src/alt.rs"
SGQ = "crates/syntax-gen/src/seq.rs"
SGL = "crates/syntax-gen/src/lib.rs"
GEN = '''use std::collections::HashMap;
#[allow(dead_code)]
fn gen(grammar: &str, special: &[(&'static str, &'static str)], doc: &[(&'static str, &'static str)]) -> (String, String) {
  let dir = std::env::temp_dir().join(format!("sg-demo-{}", std::process::id()));
  std::fs::create_dir_all(&dir).unwrap();
  std::env::set_var("OUT_DIR", &dir);
  let doc: HashMap<&str, &str> = doc.iter().copied().collect();
  let special: HashMap<&str, &str> = special.iter().copied().collect();
  let opts = syntax_gen::Options { lang: "Lang", trivia: &["Whitespace"], grammar, doc: &doc, special: &special, file: "demo" };
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| syntax_gen::get(&opts)));
  let sq = |n: &str| std::fs::read_to_string(dir.join(n)).unwrap_or_default().split_whitespace().collect::<String>();
  let out = (sq("kind.rs"), sq("ast.rs"));
  std::fs::remove_dir_all(&dir).unwrap();
  r.unwrap();
  out
}
#[allow(dead_code)]
fn kinds(kind: &str) -> Vec<String> {
  let s = kind.split("enumSyntaxKind{").nth(1).unwrap().split('}').next().unwrap();
  s.split(',').filter(|x| !x.is_empty()).map(str::to_owned).collect()
}
#[allow(dead_code)]
fn punct(kind: &str) -> Vec<String> {
  let s = kind.split("=[").nth(1).unwrap().split("];").next().unwrap();
  s.split("(b\\"").skip(1).map(|x| x.split('"').next().unwrap().to_owned()).collect()
}
'''


def sgbug(id, property, edits, needs, breaks, demo):
    bug(id, property, edits, needs, breaks, ["syntax-gen"], GEN + demo)


sgbug("c28-special-any-case", "C28",
    [(SGT, "      if let Some(&d) = special_desc.get(orig_name) {", "      // special tokens may be described under their name in any case\n      if let Some((_, &d)) = special_desc.iter().find(|(k, _)| k.eq_ignore_ascii_case(orig_name)) {")],
    "two descriptions whose names differ in case only", "which of two descriptions is used depends on the order of the caller's hash map",
    '''fn main() {
  let g = "Root = 'NameTok' Item*\\nItem = 'val'";
  let first = gen(g, &[("NameTok", "a name"), ("NAMETOK", "something"), ("nametok", "else")], &[]);
  for _ in 0..100 {
    assert_eq!(gen(g, &[("NameTok", "a name"), ("NAMETOK", "something"), ("nametok", "else")], &[]), first);
  }
}
''')
sgbug("c28-doc-prefix", "C28",
    [(SGT, "      let tok = Token { name, desc, doc: doc.get(orig_name).map(|&x| x.to_owned()) };", "      // documentation for a token documents the tokens made longer from it\n      let doc = doc.get(orig_name).or_else(|| doc.iter().find_map(|(&k, d)| orig_name.starts_with(k).then_some(d)));\n      let tok = Token { name, desc, doc: doc.map(|&x| x.to_owned()) };")],
    "a token without documentation of which two documented tokens are prefixes", "which documentation a token is given depends on the order of the caller's hash map",
    '''fn main() {
  let g = "Root = '+' '++' '+++'";
  let first = gen(g, &[], &[("+", "plus"), ("++", "plus plus")]);
  for _ in 0..100 {
    assert_eq!(gen(g, &[], &[("+", "plus"), ("++", "plus plus")]), first);
  }
}
''')
sgbug("c28-std-maps", "C28",
    [(SGT, "  pub(crate) keywords: FxHashMap<ungrammar::Token, Token>,", "  pub(crate) keywords: HashMap<ungrammar::Token, Token>,"),
     (SGT, "    let mut keywords = FxHashMap::default();", "    let mut keywords = HashMap::new();"),
     (SGK, "      .keywords\n      .into_iter()\n      .map(|(ug_tok, tok)| (grammar[ug_tok].name.as_str(), tok))\n      .collect();\n    xs.sort_unstable_by_key(|&(name, _)| (Reverse(name.len()), name));", "      .keywords\n      .into_iter()\n      .map(|(ug_tok, tok)| (grammar[ug_tok].name.as_str(), tok))\n      .collect();\n    xs.sort_by_key(|&(name, _)| Reverse(name.len()));")],
    "two keywords of one length, and a map with random hashing", "keywords of one length come out in the order of the hash map",
    '''fn main() {
  let g = "Root = 'ab' 'cd' 'ef' 'gh' 'ij' 'kl'";
  let first = gen(g, &[], &[]);
  for _ in 0..20 {
    assert_eq!(gen(g, &[], &[]), first);
  }
}
''')
sgbug("c29-last-node", "C29",
    [(SGK, "    .chain(special.iter().map(crate::token::Token::name_ident))\n    .chain(node_syntax_kinds)\n    .collect();\n  let last_syntax_kind = syntax_kinds.last().unwrap();", "    .chain(node_syntax_kinds.iter().cloned())\n    .chain(special.iter().map(crate::token::Token::name_ident))\n    .collect();\n  let last_syntax_kind = node_syntax_kinds.last().or(syntax_kinds.last()).unwrap();")],
    "a grammar with special tokens", "raw numbers of special tokens are past the kind the raw conversion checks against",
    '''fn main() {
  let (kind, _) = gen("Root = 'Name' 'val'", &[("Name", "a name")], &[]);
  let last = kinds(&kind).pop().unwrap();
  assert!(kind.contains(&format!("assert!(raw.0<=SyntaxKind::{last}asu16);")), "last kind {last}");
}
''')
sgbug("c29-lower-keywords", "C29",
    [(SGK, "    let bs = proc_macro2::Literal::byte_string(name.as_bytes());\n    let kind = tok.name_ident();\n    quote! { #bs => Self::#kind }", "    // keywords are matched on lowercase text.\n    let name = name.to_ascii_lowercase();\n    let bs = proc_macro2::Literal::byte_string(name.as_bytes());\n    let kind = tok.name_ident();\n    quote! { #bs => Self::#kind }")],
    "a keyword with a capital letter", "such a keyword's own text is not taken for it",
    '''fn main() {
  let (kind, _) = gen("Root = 'val' 'BEGIN'", &[], &[]);
  assert!(kind.contains("b\\"val\\"=>Self::ValKw"));
  assert!(kind.contains("b\\"BEGIN\\"=>Self::BeginKw"));
}
''')
sgbug("c29-doc-or-desc", "C29",
    [(SGK, "    .iter()\n    .chain(keywords.iter())\n    .map(|(name, tok)| {", "    .iter()\n    .chain(keywords.iter())\n    // the documentation describes it better\n    .filter(|(_, tok)| tok.desc.is_some() || tok.doc.is_none())\n    .map(|(name, tok)| {")],
    "a keyword or punctuation token with documentation", "such a token has no description",
    '''fn main() {
  let (kind, _) = gen("Root = 'val' '+'", &[], &[("+", "adds")]);
  assert!(kind.contains("Self::ValKw=>\\"`val`\\""));
  assert!(kind.contains("Self::Plus=>\\"`+`\\""));
}
''')
sgbug("c29-trivia-grammar", "C29",
    [(SGL, "  let trivia: Vec<_> = opts.trivia.iter().map(|&x| token::ident(x)).collect();", "  let trivia: Vec<_> =\n    opts.trivia.iter().filter(|&x| !opts.doc.contains_key(x)).map(|&x| token::ident(x)).collect();")],
    "documentation for a trivia kind", "the documented trivia kind is not in the enumeration",
    '''fn main() {
  let (kind, _) = gen("Root = 'val'", &[], &[("Whitespace", "space")]);
  assert!(kinds(&kind).contains(&"Whitespace".to_owned()));
}
''')
sgbug("c30-first-byte", "C30",
    [(SGK, "  let punctuation = {\n    let mut xs: Vec<_> = tokens\n      .punctuation\n      .into_iter()\n      .map(|(ug_tok, tok)| (grammar[ug_tok].name.as_str(), tok))\n      .collect();\n    xs.sort_unstable_by_key(|&(name, _)| (Reverse(name.len()), name));", "  let punctuation = {\n    let mut xs: Vec<_> = tokens\n      .punctuation\n      .into_iter()\n      .map(|(ug_tok, tok)| (grammar[ug_tok].name.as_str(), tok))\n      .collect();\n    // group by first character, for the lexer's sake\n    xs.sort_unstable_by_key(|&(name, _)| (name.chars().next(), Reverse(name.len()), name));")],
    "tokens of different lengths with different first characters", "a longer token comes after a shorter one",
    '''fn main() {
  let (kind, _) = gen("Root = '+' '->' '...'", &[], &[]);
  let p = punct(&kind);
  assert_eq!(p.len(), 3);
  assert!(p.windows(2).all(|w| w[0].len() >= w[1].len()), "{p:?}");
}
''')
sgbug("c30-documented-first", "C30",
    [(SGK, "  let punctuation_len = punctuation.len();", "  let punctuation = {\n    // the documented ones are the ones people use\n    let mut xs = punctuation;\n    xs.sort_by_key(|(_, tok)| tok.doc.is_none());\n    xs\n  };\n  let punctuation_len = punctuation.len();")],
    "a short token with documentation and a longer one without", "the shorter token comes before the longer one",
    '''fn main() {
  let (kind, _) = gen("Root = '=' '=='", &[], &[("=", "assigns")]);
  assert_eq!(punct(&kind), ["==", "="]);
}
''')
sgbug("c30-name-length", "C30",
    [(SGK, "      .punctuation\n      .into_iter()\n      .map(|(ug_tok, tok)| (grammar[ug_tok].name.as_str(), tok))\n      .collect();\n    xs.sort_unstable_by_key(|&(name, _)| (Reverse(name.len()), name));", "      .punctuation\n      .into_iter()\n      .map(|(ug_tok, tok)| (grammar[ug_tok].name.as_str(), tok))\n      .collect();\n    xs.sort_unstable_by(|(_, a), (_, b)| b.name.len().cmp(&a.name.len()).then_with(|| a.cmp(b)));")],
    "a short token of which the characters have long names", "a token comes after a shorter one with a longer name",
    '''fn main() {
  let (kind, _) = gen("Root = '||' ';' '**' '`'", &[], &[]);
  let p = punct(&kind);
  assert!(p.windows(2).all(|w| w[0].len() >= w[1].len()), "{p:?}");
}
''')
sgbug("c42-label-counts", "C42",
    [(SGQ, "  let idx = get_idx(counts, name);", "  // parts with labels of their own are told apart by those\n  let idx = get_idx(counts, label.unwrap_or(name));"),
     (SGQ, "counts: &mut Counts<&'cx str>, mut rule: &Rule) -> TokenStream {", "counts: &mut Counts<&'cx str>, mut rule: &'cx Rule) -> TokenStream {"),
     (SGQ, "pub(crate) fn get(cx: &Cx, name: &Ident, rules: &[Rule]) -> TokenStream {", "pub(crate) fn get<'a>(cx: &'a Cx, name: &Ident, rules: &'a [Rule]) -> TokenStream {")],
    "a rule with two labelled parts of one kind", "the accessor of the second part gives the first",
    '''fn main() {
  let (_, ast) = gen("Root = lhs:Expr '+' rhs:Expr\\nExpr = 'val'", &[], &[]);
  assert!(ast.contains("pubfnrhs(&self)->Option<Expr>{node_children(self).nth(1"), "{ast}");
}
''')
sgbug("c42-optional-first", "C42",
    [(SGQ, "      body = if idx == 0 {", "      // a part that can be missing has no fixed place\n      body = if idx == 0 || matches!(modifier, Modifier::Optional) {")],
    "an optional part after another of its kind", "its accessor gives the first one",
    '''fn main() {
  let (_, ast) = gen("Root = 'if' cond:Expr 'then' alt:Expr?\\nExpr = 'val'", &[], &[]);
  assert!(ast.contains("pubfnalt(&self)->Option<Expr>{node_children(self).nth(1"), "{ast}");
}
''')
sgbug("c42-one-pass", "C42",
    [(SGL, """  // first process all the alts
  for node in cx.grammar.iter() {
    let data = &cx.grammar[node];
    let rules = match &data.rule {
      Rule::Alt(rules) => rules.as_slice(),
      _ => continue,
    };
    types.push(alt::get(&cx, &mut token_alts, token::ident(&data.name), rules));
  }
  // it would be nicer if we could just mutate token_alts on the cx but we have an active shared
  // borrow to iterate over the grammar. so we use a kludge.
  cx.token_alts = token_alts;
  // then everything else
  for node in cx.grammar.iter() {
    let data = &cx.grammar[node];
    let rules = match &data.rule {
      Rule::Alt(_) => continue,
      Rule::Seq(rules)""", """  let nodes: Vec<_> = cx.grammar.iter().collect();
  for node in nodes {
    cx.token_alts.extend(token_alts.iter().cloned());
    let data = &cx.grammar[node];
    let rules = match &data.rule {
      Rule::Alt(rules) => {
        types.push(alt::get(&cx, &mut token_alts, token::ident(&data.name), rules));
        continue;
      }
      Rule::Seq(rules)""")],
    "a choice of tokens that comes after its use in the grammar", "the accessor looks for the choice of tokens among the nodes",
    '''fn main() {
  let (_, ast) = gen("Op = '+' | '-'\\nRoot = Op Late\\nLate = 'x' | 'y'", &[], &[]);
  assert!(ast.contains("pubfnop(&self)->Option<Op>{token_children(self).next()}"), "{ast}");
  assert!(ast.contains("pubfnlate(&self)->Option<Late>{token_children(self).next()}"), "{ast}");
}
''')
sgbug("c42-described-text", "C42",
    [(SGA, "    let text = cx.grammar[tok].name.as_str();", "    let text = cx.tokens.get(tok).desc.as_deref().unwrap_or(cx.grammar[tok].name.as_str());")],
    "a special token in a choice of tokens", "the text of the variant is the description of the token",
    '''fn main() {
  let (_, ast) = gen("Root = Lit\\nLit = 'IntLit' | 'true'", &[("IntLit", "an integer")], &[]);
  assert!(ast.contains("Self::TrueKw=>\\"true\\""), "{ast}");
  assert!(ast.contains("Self::IntLit=>\\"IntLit\\""), "{ast}");
}
''')

# ---- C25
bug("c25-done-in-assert", "C25",
    [("crates/topo-sort/src/lib.rs", "          always!(ret.done.insert(value.clone()), \"should not `End` if already done\");",
      "          debug_assert!(ret.done.insert(value.clone()), \"should not `End` if already done\");")],
    "a release build", "the set of finished elements stays empty", ["topo-sort", "fast-hash"],
    '''fn main() {
  let mut g = topo_sort::graph::Graph::<u32>::new();
  g.insert(1, [2].into_iter().collect());
  g.insert(2, [].into_iter().collect());
  g.insert(3, [2].into_iter().collect());
  let got = topo_sort::graph::get(&g).unwrap();
  assert_eq!(got.iter().filter(|&&x| x == 2).count(), 1, "{got:?}");
}
''', release=True)
bug("c25-id-in-assert", "C25",
    [("crates/paths/src/lib.rs", "      self.path_to_id.insert(path.to_owned(), id);", "      debug_assert!(self.path_to_id.insert(path.to_owned(), id).is_none());")],
    "a release build", "a path is given another id each time", ["paths"],
    '''fn main() {
  let mut s = paths::Store::new();
  let p = paths::CleanPathBuf::new("/a/b").unwrap();
  let a = s.get_id(p.as_clean_path());
  let b = s.get_id(p.as_clean_path());
  assert!(a == b);
}
''', release=True)
bug("c25-assertion-holds", "C25",
    [("crates/always/src/lib.rs", "    if cfg!(debug_assertions) {\n      assert!(cond, $fmt $($arg)*);\n    }\n    if !cond {\n      $crate::__log_error!($fmt $($arg)*);\n    }\n    cond",
      "    if cfg!(debug_assertions) {\n      assert!(cond, $fmt $($arg)*);\n    } else if !cond {\n      $crate::__log_error!($fmt $($arg)*);\n    }\n    cond || !cfg!(debug_assertions)")],
    "a failing soft assertion in a release build", "the caller goes on as if the condition held", ["always"],
    '''fn main() {
  let x = std::env::args().count();
  assert!(!always::always!(x == 7, "x is {}", x));
}
''', release=True)
bug("c25-assertion-twice", "C25",
    [("crates/always/src/lib.rs", "    if !cond {\n      $crate::__log_error!($fmt $($arg)*);\n    }\n    cond",
      "    if !cond {\n      $crate::__log_error!($fmt $($arg)*);\n    }\n    cond || (!cfg!(debug_assertions) && $cond)")],
    "a failing soft assertion whose condition has an effect, in a release build", "the condition is evaluated again", ["always"],
    '''fn main() {
  let mut n = 0;
  always::always!({ n += 1; n > 5 }, "n");
  assert_eq!(n, 1);
}
''', release=True)

# ---------------------------------------------------------------- pattern-match
PMD = '''use pattern_match::{check, Check, CheckError, ConPat, Lang, Pat, RawPat, Result};
#[derive(Debug, Clone, PartialEq)]
enum C { Any, Lit(u32), Pair, Wrap }
/// `Fin(n)`: the numbers below n; `Pair`: two of them; `Wrap`: a constructor around a type, or nothing
#[derive(Debug, Clone)]
enum Ty { Fin(u32), Pair(Box<Ty>, Box<Ty>), Opt(Box<Ty>), Bad }
struct L;
impl Lang for L {
  type Cx = Vec<(usize, Vec<C>)>;
  type PatIdx = u32;
  type Con = C;
  type Ty = Ty;
  fn any() -> C { C::Any }
  fn split<'a, I: Iterator<Item = &'a C>>(cx: &mut Self::Cx, ty: &Ty, con: &C, cons: I, depth: usize) -> Result<Vec<C>> where C: 'a {
    cx.push((depth, cons.cloned().collect()));
    if *con != C::Any { return Ok(vec![con.clone()]) }
    match ty {
      Ty::Fin(n) => Ok((0..*n).map(C::Lit).collect()),
      Ty::Pair(..) => Ok(vec![C::Pair]),
      Ty::Opt(_) => Ok(vec![C::Lit(0), C::Wrap]),
      Ty::Bad => Err(CheckError("bad type")),
    }
  }
  fn get_arg_tys(_: &mut Self::Cx, ty: &Ty, con: &C) -> Result<Vec<Ty>> {
    Ok(match (ty, con) {
      (_, C::Lit(_)) => vec![],
      (Ty::Pair(a, b), C::Pair) => vec![(**a).clone(), (**b).clone()],
      (Ty::Opt(a), C::Wrap) => vec![(**a).clone()],
      _ => return Err(CheckError("no such constructor")),
    })
  }
  fn covers(l: &C, r: &C) -> bool { *l == C::Any || l == r }
}
#[allow(dead_code)]
fn lit(n: u32, i: u32) -> Pat<L> { Pat::zero(C::Lit(n), i) }
#[allow(dead_code)]
fn any(i: u32) -> Pat<L> { Pat::zero(C::Any, i) }
#[allow(dead_code)]
fn pair(a: Pat<L>, b: Pat<L>, i: u32) -> Pat<L> { Pat::con(C::Pair, vec![a, b], i) }
#[allow(dead_code)]
fn wrap(a: Pat<L>, i: u32) -> Pat<L> { Pat::con(C::Wrap, vec![a], i) }
#[allow(dead_code)]
fn pty(a: u32, b: u32) -> Ty { Ty::Pair(Box::new(Ty::Fin(a)), Box::new(Ty::Fin(b))) }
#[allow(dead_code)]
fn un(c: &Check<L>) -> Vec<u32> { let mut v: Vec<_> = c.unreachable.iter().copied().collect(); v.sort_unstable(); v }
#[allow(dead_code)]
fn show(p: &Pat<L>) -> String {
  match &p.raw {
    RawPat::Or(ps) => format!("({})", ps.iter().map(show).collect::<Vec<_>>().join("|")),
    RawPat::Con(ConPat { con, args }) => format!("{con:?}[{}]", args.iter().map(show).collect::<Vec<_>>().join(",")),
  }
}
#[allow(dead_code)]
fn go(ps: Vec<Pat<L>>, ty: Ty) -> Result<Check<L>> { check::<L>(&mut Vec::new(), ps, ty) }
'''
PMA = "crates/pattern-match/src/alg.rs"
PMX = "crates/pattern-match/src/matrix.rs"


def pmbug(id, property, edits, needs, breaks, demo):
    bug(id, property, edits, needs, breaks, ["pattern-match"], PMD + demo)


pmbug("c10-args-of-nullary", "C10",
    [(PMA, "    if tys.len() < pat.args.len() {\n", "    if (1..pat.args.len()).contains(&tys.len()) {\n")],
    "arguments given to a constructor that takes none", "such a pattern is taken for one without arguments",
    '''fn main() {
  let p = Pat::con(C::Lit(0), vec![any(2)], 1);
  assert!(go(vec![p], Ty::Fin(2)).is_err());
  let p = Pat::con(C::Wrap, vec![any(2), any(3)], 1);
  assert!(go(vec![p], Ty::Opt(Box::new(Ty::Fin(2)))).is_err());
}
''')
pmbug("c10-last-question", "C10",
    [(PMA, "  let missing: Vec<_> = useful(cx, &mut ac, 0, &mtx, vec![(Pat::any_no_idx(), ty)])?\n    .witnesses", "  let missing: Vec<_> = useful(cx, &mut ac, 0, &mtx, vec![(Pat::any_no_idx(), ty)])\n    .or_else(|e| if mtx.num_rows() == 0 { Ok(Useful::no()) } else { Err(e) })?\n    .witnesses")],
    "a match without patterns on a type the language cannot split", "an error of the language is taken for there being nothing to match",
    '''fn main() {
  assert!(go(vec![], Ty::Fin(0)).unwrap().missing.is_empty());
  assert!(go(vec![], Ty::Bad).is_err());
}
''')
pmbug("c10-row-error", "C10",
    [(PMA, "          let new = specialize(cx, &ty, &row.con_pat, &con)?;\n          if let Some(new) = new {", "          if let Ok(Some(new)) = specialize(cx, &ty, &row.con_pat, &con) {")],
    "an earlier pattern that was not examined when its turn came, because its type has no values there",
    "an error found in an earlier pattern is taken for the pattern not applying",
    '''struct N;
/// fails the third time the argument types are asked for
impl Lang for N {
  type Cx = u32;
  type PatIdx = u32;
  type Con = C;
  type Ty = ();
  fn any() -> C { C::Any }
  fn split<'a, I: Iterator<Item = &'a C>>(_: &mut u32, _: &(), con: &C, _: I, _: usize) -> Result<Vec<C>> where C: 'a {
    Ok(if *con == C::Any { vec![C::Lit(0), C::Lit(1)] } else { vec![con.clone()] })
  }
  fn get_arg_tys(n: &mut u32, _: &(), _: &C) -> Result<Vec<()>> {
    *n -= 1;
    if *n == 0 { Err(CheckError("budget used up")) } else { Ok(Vec::new()) }
  }
  fn covers(l: &C, r: &C) -> bool { *l == C::Any || l == r }
}
fn main() {
  for n in 1..6 {
    let r = check::<N>(&mut n.clone(), vec![Pat::zero(C::Any, 1)], ());
    assert!(r.is_err(), "{n}");
  }
  assert!(check::<N>(&mut 100, vec![Pat::zero(C::Any, 1)], ()).is_ok());
}
''')
pmbug("c11-shared-index", "C11",
    [(PMA, "  if let Some(idx) = pat.idx {\n    ac.insert(idx);\n  }\n  match", "  if let Some(idx) = pat.idx {\n    // already collected\n    if !ac.insert(idx) {\n      return;\n    }\n  }\n  match")],
    "two patterns with the same index", "the sub-patterns of the second are never reported",
    '''fn main() {
  let c = go(vec![pair(any(2), any(3), 1), pair(any(4), any(5), 1)], pty(2, 2)).unwrap();
  assert_eq!(un(&c), [4, 5]);
}
''')
pmbug("c11-index-of-alternative", "C11",
    [(PMA, "        val.push((pat, ty.clone()));\n", "        // an alternative without an index is reported as the whole.\n        let pat = Pat { idx: pat.idx.or(idx), ..pat };\n        val.push((pat, ty.clone()));\n"),
     (PMA, "  if let Some(idx) = idx {\n    if !ret.witnesses.is_empty() {\n      ac.remove(&idx);\n    }\n  }\n  Ok(ret)", "  if let (Some(idx), true) = (idx, depth == 0 || !is_or) {\n    if !ret.witnesses.is_empty() {\n      ac.remove(&idx);\n    }\n  }\n  Ok(ret)"),
     (PMA, "  let idx = pat.idx;\n  match pat.raw {", "  let idx = pat.idx;\n  let is_or = matches!(pat.raw, RawPat::Or(_));\n  match pat.raw {")],
    "an or-pattern below another pattern", "an or-pattern with useful alternatives is reported unreachable when nested",
    '''fn main() {
  let c = go(vec![wrap(Pat::or(vec![lit(0, 3), lit(1, 4)], 2), 1), any(5)], Ty::Opt(Box::new(Ty::Fin(3)))).unwrap();
  assert_eq!(un(&c), [0u32; 0]);
}
''')
pmbug("c12-first-hit", "C12",
    [(PMA, "        ret.extend(u);\n      }\n", "        ret.extend(u);\n        // one witness is as good as another below the top.\n        if depth > 1 && !ret.witnesses.is_empty() {\n          break;\n        }\n      }\n")],
    "a sub-pattern only useful for a later constructor of a split below the top", "a reachable alternative is reported unreachable",
    '''fn main() {
  // the second argument of the pair is looked at first.
  let alt = Pat::or(vec![pair(lit(0, 3), any(4), 2), pair(lit(1, 6), any(7), 5)], 1);
  let t = Ty::Pair(Box::new(Ty::Fin(2)), Box::new(Ty::Fin(2)));
  let c = go(vec![pair(lit(0, 9), lit(0, 10), 8), alt], t).unwrap();
  assert_eq!(un(&c), [0u32; 0]);
  let c = go(vec![pair(lit(0, 2), lit(0, 3), 1)], Ty::Pair(Box::new(Ty::Fin(2)), Box::new(Ty::Fin(3)))).unwrap();
  let m: Vec<_> = c.missing.iter().map(show).collect();
  for x in ["Pair[Lit(1)[],Lit(0)[]]", "Pair[Lit(0)[],Lit(1)[]]", "Pair[Lit(0)[],Lit(2)[]]"] {
    assert!(m.iter().any(|y| y == x), "{m:?}");
  }
}
''')
pmbug("c12-alternatives-reversed", "C12",
    [(PMX, "  match pat.raw {\n    RawPat::Con(p) => ac.push(p),\n    RawPat::Or(pats) => {\n      for pat in pats {\n        expand_or(ac, pat);\n      }\n    }\n  }", "  // without recursion.\n  let mut todo = vec![pat];\n  while let Some(pat) = todo.pop() {\n    match pat.raw {\n      RawPat::Con(p) => ac.push(p),\n      RawPat::Or(pats) => todo.extend(pats),\n    }\n  }")],
    "a language whose split looks at the order of the constructors it is given", "the alternatives of an or-pattern become rows in reverse order",
    '''fn main() {
  let mut cx = Vec::new();
  check::<L>(&mut cx, vec![Pat::or(vec![lit(0, 2), lit(1, 3), lit(2, 4)], 1)], Ty::Fin(3)).unwrap();
  assert_eq!(cx.last().unwrap().1, [C::Lit(0), C::Lit(1), C::Lit(2)]);
}
''')
pmbug("c12-alternative-alone", "C12",
    [(PMA, "        ret.extend(useful(cx, ac, depth + 1, &m, val.clone())?);\n        m.push(val.into_iter().map(|(x, _)| x).collect());", "        let u = useful(cx, ac, depth + 1, &m, val.clone())?;\n        // the last column alone decides what the others have to be compared with.\n        if val.len() == 1 || !u.witnesses.is_empty() && val.len() < 3 {\n          m.push(val.into_iter().map(|(x, _)| x).collect());\n        }\n        ret.extend(u);")],
    "an or-pattern with two more columns to its right, and an alternative twice", "the second of two equal alternatives is not reported",
    '''fn main() {
  let t3 = Ty::Pair(Box::new(pty(3, 3)), Box::new(Ty::Fin(3)));
  let p = pair(pair(Pat::or(vec![lit(1, 6), lit(1, 7)], 5), any(4), 3), any(2), 1);
  let c = go(vec![p, any(8)], t3).unwrap();
  assert_eq!(un(&c), [7]);
}
''')
pmbug("c13-few-enough", "C13",
    [(PMA, "  fn extend(&mut self, other: Self) {\n    self.witnesses.extend(other.witnesses);", "  fn extend(&mut self, other: Self) {\n    // nobody reads more than this many.\n    let room = 64usize.saturating_sub(self.witnesses.len());\n    self.witnesses.extend(other.witnesses.into_iter().take(room));")],
    "more than 64 missing patterns", "some missing patterns are not reported",
    '''fn main() {
  let c = go(vec![lit(0, 1)], Ty::Fin(100)).unwrap();
  assert_eq!(c.missing.len(), 99);
}
''')
pmbug("c13-args-in-stack-order", "C13",
    [(PMA, "          let args: Vec<_> = w.drain(w.len() - new_len..).rev().collect();", "          let at = w.len() - new_len;\n          let mut args = w.split_off(at);\n          // the stack holds them last to first.\n          if at > 0 || depth == 0 {\n            args.reverse();\n          }")],
    "a constructor with two arguments as the only value below another constructor", "the arguments of a nested missing pattern are in the wrong order",
    '''fn main() {
  let t = Ty::Opt(Box::new(Ty::Pair(Box::new(Ty::Fin(1)), Box::new(Ty::Fin(3)))));
  let c = go(vec![lit(0, 1), wrap(pair(any(4), lit(0, 5), 3), 2)], t).unwrap();
  let m: Vec<_> = c.missing.iter().map(show).collect();
  assert_eq!(m, ["Wrap[Pair[Lit(0)[],Lit(1)[]]]", "Wrap[Pair[Lit(0)[],Lit(2)[]]]"]);
}
''')
# ---------------------------------------------------------------- elapsed, write-rs-tokens
bug("c38-quick", "C38",
    [("crates/elapsed/src/lib.rs", "  log::info!(\"{msg}: {elapsed:?}\");\n", "  // not worth a line.\n  if elapsed > Duration::from_nanos(999) {\n    log::info!(\"{msg}: {elapsed:?}\");\n  }\n")],
    "a call that takes less than a microsecond", "nothing is logged for a very quick call", ["elapsed", '+log = "0.4"'],
    '''use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
struct Count;
impl log::Log for Count {
  fn enabled(&self, _: &log::Metadata) -> bool { true }
  fn log(&self, _: &log::Record) { N.fetch_add(1, Ordering::SeqCst); }
  fn flush(&self) {}
}
fn main() {
  log::set_logger(&Count).unwrap();
  log::set_max_level(log::LevelFilter::Info);
  for _ in 0..10_000 { elapsed::log("x", || ()); }
  assert_eq!(N.load(Ordering::SeqCst), 10_000);
}
''')
bug("c38-again", "C38",
    [("crates/elapsed/src/lib.rs", "  let res = f();\n  let elapsed = Instant::now().duration_since(start);\n  (res, elapsed)", "  let res = f();\n  let elapsed = Instant::now().duration_since(start);\n  // less the clock's own cost.\n  let cost = start.elapsed() - elapsed;\n  (res, elapsed.saturating_sub(cost))")],
    "a call about as quick as reading the clock", "the duration is not the later reading minus the earlier", ["elapsed"],
    '''fn main() {
  // a call that reads the clock itself takes at least as long as it sees.
  for _ in 0..200_000 {
    let (d, e) = elapsed::time(|| { let a = std::time::Instant::now(); a.elapsed() });
    assert!(e >= d, "{e:?} {d:?}");
  }
}
''')
bug("c43-same-size", "C43",
    [("crates/write-rs-tokens/src/lib.rs", "  std::fs::write(dst, formatted).expect(\"io failed\");", "  // leave the file (and its time stamp) alone if there is nothing new.\n  if std::fs::metadata(&dst).map_or(false, |m| m.len() == formatted.len() as u64) {\n    return;\n  }\n  std::fs::write(dst, formatted).expect(\"io failed\");")],
    "a file of the same length from an earlier build", "the file keeps what an earlier build wrote", ["write-rs-tokens", '+proc-macro2 = "1"'],
    '''fn main() {
  let dir = std::env::temp_dir().join(format!("wr-demo-{}", std::process::id()));
  std::fs::create_dir_all(&dir).unwrap();
  std::env::set_var("OUT_DIR", &dir);
  write_rs_tokens::go("const A: u8 = 1;".parse().unwrap(), "x.rs");
  write_rs_tokens::go("const A: u8 = 2;".parse().unwrap(), "x.rs");
  let s = std::fs::read_to_string(dir.join("x.rs")).unwrap();
  std::fs::remove_dir_all(&dir).unwrap();
  assert!(s.contains("= 2"));
}
''')
bug("c14-absolute-join", "C14",
    [(PATHS, "    let mut ret = self.to_owned();\n    ret.push(other);\n    ret", "    let other = other.as_ref();\n    if other.is_absolute() {\n      // replaces the whole path.\n      return CleanPathBuf(other.to_owned());\n    }\n    let mut ret = self.to_owned();\n    ret.push(other);\n    ret")],
    "joining an absolute path that is not clean", "the joined path keeps its `..`", ["paths"],
    '''fn main() {
  let p = paths::CleanPathBuf::new("/a").unwrap();
  assert_eq!(p.as_clean_path().join("/b/../c").as_path().to_str().unwrap(), "/c");
}
''')
bug("c15-same-place", "C15",
    [(PATHS, "      let old = PathId(idx::Idx::new(idx));\n", "      let old = PathId(idx::Idx::new(idx));\n      // the stores often agree.\n      if self.id_to_path.get(idx).is_some_and(|p| p.as_path().ends_with(path.as_path().file_name().unwrap_or_default())) {\n        f(old, old);\n        continue;\n      }\n")],
    "two stores with paths of the same file name under the same id", "a path of the other store is mapped to another path", ["paths"],
    '''use paths::{CleanPathBuf, Store};
fn main() {
  let p = |s: &str| CleanPathBuf::new(s).unwrap();
  let (mut a, mut b) = (Store::new(), Store::new());
  a.get_id_owned(p("/x/f"));
  let o = b.get_id_owned(p("/y/f"));
  let mut got = Vec::new();
  a.combine(b, &mut |x, y| got.push((x, y)));
  assert_eq!(got.len(), 1);
  assert_eq!(got[0].0, o);
  assert_eq!(a.get_path(got[0].1).as_path().to_str().unwrap(), "/y/f");
}
''')
bug("c16-os-hash", "C16",
    [(PATHS, "/// A cleaned path buffer.\n///\n/// See [`CleanPath`] for discussion of what it means for a path to be \"clean\".\n#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]",
      "impl std::hash::Hash for CleanPathBuf {\n  fn hash<H: std::hash::Hasher>(&self, state: &mut H) {\n    // clean paths need no normalizing.\n    self.0.as_os_str().hash(state);\n  }\n}\n\n/// A cleaned path buffer.\n///\n/// See [`CleanPath`] for discussion of what it means for a path to be \"clean\".\n#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]")],
    "a hash map keyed by owned clean paths", "looking up the borrowed path does not find the owned key", ["paths"],
    '''use std::collections::HashMap;
fn main() {
  let p = paths::CleanPathBuf::new("/a/b").unwrap();
  let m = HashMap::from([(p.clone(), 1)]);
  assert_eq!(m.get(p.as_path()), Some(&1));
}
''')
bug("c17-lossy", "C17",
    [(PATHS, "    std::fs::read_to_string(path)\n", "    Ok(match String::from_utf8(std::fs::read(path)?) {\n      Ok(s) => s,\n      Err(e) => String::from_utf8_lossy(e.as_bytes()).into_owned(),\n    })\n")],
    "a file that is not UTF-8", "reading it as a string reports no failure", ["paths"],
    '''use paths::FileSystem as _;
fn main() {
  let d = std::env::temp_dir().join(format!("c17-lossy-{}", std::process::id()));
  std::fs::create_dir(&d).unwrap();
  let f = d.join("f");
  std::fs::write(&f, [0xff, 0xfe]).unwrap();
  let r = paths::RealFileSystem::default().read_to_string(&f);
  std::fs::remove_file(&f).unwrap();
  std::fs::remove_dir(&d).unwrap();
  assert!(r.is_err());
}
''')
TP = "crates/text-pos/src/lib.rs"
bug("c18-end-column", "C18",
    [(TP, "    let pos = self.position_utf8(self.len()).expect(\"len is in range\");\n    self.position_to_utf16(pos).expect(\"len can be utf-16\")",
      "    let pos = self.position_utf8(self.len()).expect(\"len is in range\");\n    if pos.line == 0 {\n      // only one line.\n      return PositionUtf16 { line: 0, col: pos.col };\n    }\n    self.position_to_utf16(pos).expect(\"len can be utf-16\")")],
    "a text of one line with a character outside ASCII", "the end position is not the position of the text's length", ["text-pos", "text-size-util"],
    '''fn main() {
  let db = text_pos::PositionDb::new("éx");
  assert_eq!(Some(db.end_position_utf16()), db.position_utf16(db.len()));
}
''')
bug("c18-range-same-offset", "C18",
    [(TP, "    self.range_to_utf16(self.range_utf8(text_range)?)", "    let range = self.range_utf8(text_range)?;\n    let start = self.position_to_utf16(range.start)?;\n    if range.start.col == range.end.col {\n      return Some(RangeUtf16 { start, end: PositionUtf16 { line: range.end.line, col: start.col } });\n    }\n    self.range_to_utf16(range)")],
    "a range over several lines that ends in the column it starts in", "the end of the range is not the position of its end", ["text-pos", "text-size-util"],
    '''use text_size_util::{TextRange, TextSize};
fn main() {
  let db = text_pos::PositionDb::new("éx\\nabc");
  let r = TextRange::new(TextSize::from(2), TextSize::from(6));
  assert_eq!(db.range_utf16(r).unwrap().end, db.position_utf16(r.end()).unwrap());
}
''')
bug("c20-first-full", "C20",
    [("crates/apply-changes/src/lib.rs", "changes.iter().rposition(", "changes.iter().position(")],
    "two whole-text changes in one batch", "the later whole-text change is ignored", ["apply-changes", "text-pos"],
    '''fn main() {
  let c = |s: &str| apply_changes::Change { range: None, text: s.to_owned() };
  let mut s = String::from("x");
  apply_changes::get(&mut s, vec![c("a"), c("b")]);
  assert_eq!(s, "b");
}
''')
bug("c22-two-layers", "C22",
    [("crates/chain-map/src/lib.rs", "    let is_len_one = self.stack.len() == 1;\n", "    // layers of one key each differ when they have another length than the top.\n    let is_len_one = self.stack.windows(2).all(|w| w[0].len() > w[1].len());\n")],
    "a big layer under a smaller one that shadows a key of it", "a shadowed key is given twice by iter", ["chain-map"],
    '''fn main() {
  let mut m = chain_map::ChainMap::from([(1, 1), (2, 2), (3, 3)]);
  m.extend([(1, 10)]);
  assert_eq!(m.iter().count(), 3);
}
''')
bug("c26-map-fits", "C26",
    [("crates/fast-hash/src/lib.rs", "  for (k, v) in xs {\n    assert!(ret.insert(k, v).is_none());\n  }\n", "  for (k, v) in xs {\n    let last = ret.len() + 1 == N;\n    let old = ret.insert(k, v);\n    // the last one must fill it up.\n    assert!(last || old.is_none());\n  }\n")],
    "the last key is a duplicate", "a duplicate key is accepted", ["fast-hash"],
    '''fn main() {
  assert!(std::panic::catch_unwind(|| fast_hash::map([(1, 'a'), (1, 'b')])).is_err());
}
''')
bug("c31-sharp", "C31",
    [("crates/identifier-case/src/lib.rs", "      is_cap = false;\n      ret.push(c.to_ascii_uppercase());", "      is_cap = false;\n      ret.extend(c.to_uppercase());")],
    "a letter whose upper case is two letters", "converting changes the letters", ["identifier-case"],
    '''fn main() {
  assert_eq!(identifier_case::snake_to_pascal("ßa"), "ßa");
}
''')
bug("c32-did-bump", "C32",
    [("crates/str-process/src/lib.rs", "    m.bomb.defuse();\n    self.idx > m.idx\n", "    m.bomb.defuse();\n    // at the end there is nothing left to pass over.\n    self.idx > m.idx || self.idx >= self.s.len()\n")],
    "a marker made at the end of the string", "reports that something was passed over, and an empty slice as non-empty", ["str-process"],
    '''fn main() {
  let st = str_process::St::new("");
  let m = st.mark();
  assert!(!st.did_bump_since(m));
}
''')
bug("c35-idx-wraps", "C35",
    [("crates/idx/src/lib.rs", "    Self(n.try_into().expect(\"couldn't convert to Idx\"))", "    debug_assert!(n < u32::MAX as usize, \"couldn't convert to Idx\");\n    Self(n as u32)")],
    "an index past u32 in a release build", "the index wraps around silently", ["idx"],
    '''fn main() {
  let r = std::panic::catch_unwind(|| idx::Idx::new(1usize << 32));
  assert!(r.is_err());
  assert_eq!(idx::Idx::new(u32::MAX as usize).to_usize(), u32::MAX as usize);
}
''')
bug("c36-blank-first", "C36",
    [("crates/code-h2-md-map/src/lib.rs", "      None => {\n        val.push('\\n');\n        val.push_str(line);\n", "      None => {\n        // leave out the blank line after the heading.\n        if !(line.is_empty() && val.ends_with('\\n')) {\n          val.push('\\n');\n        }\n        val.push_str(line);\n")],
    "two blank lines in a row", "a blank line is lost", ["code-h2-md-map"],
    '''fn main() {
  let m = code_h2_md_map::get("## `a`\\nx\\n\\n\\ny", |_| String::new());
  assert_eq!(m["a"], "\\nx\\n\\n\\ny");
}
''')
bug("c37-separator-error", "C37",
    [("crates/fmt-util/src/lib.rs", "  for x in iter {\n    f.write_str(sep)?;\n    x.fmt(f)?;\n  }\n", "  for x in iter {\n    if f.write_str(sep).is_ok() {\n      x.fmt(f)?;\n    }\n  }\n")],
    "a writer that fails on a separator", "the failure is hidden and the element left out", ["fmt-util"],
    '''use std::fmt::{self, Write};
struct L;
impl fmt::Display for L { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt_util::comma_seq(f, ["a", "b"].iter()) } }
struct W;
impl Write for W { fn write_str(&mut self, s: &str) -> fmt::Result { if s == ", " { Err(fmt::Error) } else { Ok(()) } } }
fn main() {
  assert!(write!(W, "{}", L).is_err());
}
''')
bug("c39-shared-counter", "C39",
    [("crates/uniq/src/lib.rs", "    let ret = Uniq(self.0);\n    // assuming overflow won't happen.\n    self.0 += 1;\n    ret", "    // keep makers apart.\n    static NEXT: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);\n    self.0 = NEXT.fetch_add(1, core::sync::atomic::Ordering::Relaxed);\n    Uniq(self.0)")],
    "two makers in one process", "what one maker returns depends on the others: state shared by the whole process", ["uniq"],
    '''fn main() {
  let ids = |mut m: uniq::UniqMk| (0..3).map(|_| m.mk().to_string()).collect::<Vec<_>>();
  assert_eq!(ids(uniq::UniqMk::default()), ids(uniq::UniqMk::default()));
}
''')
bug("c44-path-of-nothing", "C44",
    [(PATHS, "    WithPath { path: self, val }", "    let path = if std::mem::size_of::<T>() == 0 { PathId(idx::Idx::new_u32(0)) } else { self };\n    WithPath { path, val }")],
    "wrapping a value of a type without data", "the wrapped value has another path", ["paths"],
    '''use paths::{CleanPathBuf, Store};
fn main() {
  let mut s = Store::new();
  s.get_id_owned(CleanPathBuf::new("/a").unwrap());
  let b = s.get_id_owned(CleanPathBuf::new("/b").unwrap());
  assert_eq!(b.wrap(()).path, b);
}
''')
epbug("c06-first-event", "C06",
    [(EP, "      self.events.iter().skip(save.events_len).any(", "      self.events.iter().skip(save.events_len.max(1)).any(")],
    "a save made before anything else, and an error right after it", "an error that is the very first event is not seen",
    '''fn main() {
  let mut p = Parser::<K, E>::new(&[]);
  let s = p.save();
  p.error(E::Num(0));
  assert!(!p.ok_since(s));
}
''')
bug("c07-mark-at-end", "C07",
    [("crates/str-process/src/lib.rs", "    Marker { bomb: DebugDropBomb::new(\"must be passed to a `St` method\"), idx: self.idx }", "    let mut bomb = DebugDropBomb::new(\"must be passed to a `St` method\");\n    if self.idx != 0 && self.cur().is_none() {\n      // there is nothing left to pass over.\n      bomb.defuse();\n    }\n    Marker { bomb, idx: self.idx }")],
    "a marker made at the end of the string, and forgotten", "forgetting the marker goes unnoticed", ["str-process"],
    '''fn main() {
  let r = std::panic::catch_unwind(|| {
    let mut st = str_process::St::new("a");
    st.bump();
    let _m = st.mark();
  });
  assert!(r.is_err());
}
''')
bug("c16-os-order", "C16",
    [(PATHS, "#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[repr(transparent)]\npub struct CleanPathBuf(PathBuf);",
      "#[derive(Debug, Clone, PartialEq, Eq, Hash)]\n#[repr(transparent)]\npub struct CleanPathBuf(PathBuf);\n\nimpl PartialOrd for CleanPathBuf {\n  fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n    Some(self.cmp(other))\n  }\n}\n\nimpl Ord for CleanPathBuf {\n  fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n    self.0.as_os_str().cmp(other.0.as_os_str())\n  }\n}")],
    "a sorted map holding two paths of which one continues the other's component with a byte below the separator", "looking up the borrowed path does not find the owned key", ["paths"],
    '''use std::collections::BTreeMap;
fn main() {
  let p = paths::CleanPathBuf::new("/a/b").unwrap();
  let q = paths::CleanPathBuf::new("/a-b").unwrap();
  let m = BTreeMap::from([(p.clone(), 1), (q, 2)]);
  assert_eq!(m.get(p.as_path()), Some(&1));
}
''')
