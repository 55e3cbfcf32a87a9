"""Behaviour-preserving edits on which the checks must stay quiet."""
REF = {}


def ref(i, props, *edits):
    REF[i] = (props.split(), list(edits))


TS = "crates/topo-sort/src/lib.rs"
TG = "crates/topo-sort/src/graph.rs"
ref("topo-get-or-insert", "C23 C24", (TS, "            if ret.cycle.is_none() {\n              ret.cycle = Some(value);\n            }\n            continue;", "            ret.cycle.get_or_insert(value);\n            continue;"))
ref("topo-extend-map", "C23 C24", (TS, "    for x in iter {\n      self.push(x);\n    }", "    self.actions.extend(iter.into_iter().map(Action::Start));"))
ref("topo-extend-foreach", "C23 C24", (TS, "    for x in iter {\n      self.push(x);\n    }", "    iter.into_iter().for_each(|x| self.push(x));"))
ref("topo-loop", "C23 C24", (TS, "    while let Some(action) = self.actions.pop() {\n      match action {", "    loop {\n      let Some(action) = self.actions.pop() else { break };\n      match action {"))
ref("topo-separate", "C23 C24",
    (TS, "    let mut ret = Ret { done: V::Set::default(), cycle: None::<T> };", "    let mut done = V::Set::default();\n    let mut cycle = None::<T>;"),
    (TS, "if ret.done.contains(&value) {", "if done.contains(&value) {"),
    (TS, "            if ret.cycle.is_none() {\n              ret.cycle = Some(value);\n            }", "            cycle = cycle.or(Some(value));"),
    (TS, "ret.done.insert(value.clone())", "done.insert(value.clone())"),
    (TS, "    always!(cur.is_empty(), \"should have no progress when done\");\n    ret\n", "    always!(cur.is_empty(), \"should have no progress when done\");\n    Ret { done, cycle }\n"))
ref("topo-helper", "C23 C24",
    (TS, "          level = level.checked_sub(1).unwrap_or_else(|| {\n            always!(false, \"`End` should have a matching `Start`\");\n            0\n          });\n", "          level = dec(level);\n"),
    (TS, "#[derive(Debug)]\nenum Action<T> {", "fn dec(level: usize) -> usize {\n  if always!(level > 0, \"`End` should have a matching `Start`\") { level - 1 } else { 0 }\n}\n\n#[derive(Debug)]\nenum Action<T> {"))
ref("topo-get-match", "C23 C24", (TG, "  match got.cycle {\n    Some(x) => Err(CycleError(x)),\n    None => Ok(visitor.order),\n  }", "  if let Some(x) = got.cycle {\n    return Err(CycleError(x));\n  }\n  Ok(visitor.order)"))
ref("topo-get-for", "C23 C24", (TG, "  let work: crate::Work<_> = graph.keys().copied().collect();", "  let mut work = crate::Work::default();\n  for &k in graph.keys() {\n    work.push(k);\n  }"))
ref("topo-process-for", "C23 C24", (TG, "      work.extend(ns.iter().copied());", "      for &n in ns {\n        work.push(n);\n      }"))
ref("topo-start-method", "C23 C24",
    (TS, "        Action::Start(value) => {\n          if ret.done.contains(&value) {\n            continue;\n          }\n", "        Action::Start(value) if ret.done.contains(&value) => {}\n        Action::Start(value) => {\n"))
ref("topo-ok-or", "C23 C24", (TG, "  match got.cycle {\n    Some(x) => Err(CycleError(x)),\n    None => Ok(visitor.order),\n  }", "  got.cycle.map_or(Ok(visitor.order), |x| Err(CycleError(x)))"))

# ---------------------------------------------------------------- event-parse
EP = "crates/event-parse/src/lib.rs"
EPC = "C01 C02 C03 C04 C05 C06 C07 C08 C39 C40 C41"
RS = "crates/event-parse/src/rowan_sink.rs"
ref("ep-peek-loop", EPC, (EP, """    while let Some(&tok) = self.tokens.get(self.tok_idx) {
      if tok.kind.is_trivia() {
        self.tok_idx += 1;
      } else {
        return Some(tok);
      }
    }
    None
""", """    loop {
      let tok = *self.tokens.get(self.tok_idx)?;
      if !tok.kind.is_trivia() {
        return Some(tok);
      }
      self.tok_idx += 1;
    }
"""))
ref("ep-peek-index", EPC, (EP, """    while let Some(&tok) = self.tokens.get(self.tok_idx) {
      if tok.kind.is_trivia() {
        self.tok_idx += 1;
      } else {
        return Some(tok);
      }
    }
    None
""", """    while self.tok_idx < self.tokens.len() {
      let tok = self.tokens[self.tok_idx];
      if !tok.kind.is_trivia() {
        return Some(tok);
      }
      self.tok_idx += 1;
    }
    None
"""))
ref("ep-peek-find", EPC, (EP, """    while let Some(&tok) = self.tokens.get(self.tok_idx) {
      if tok.kind.is_trivia() {
        self.tok_idx += 1;
      } else {
        return Some(tok);
      }
    }
    None
""", """    while self.tokens.get(self.tok_idx).is_some_and(|t| t.kind.is_trivia()) {
      self.tok_idx += 1;
    }
    self.tokens.get(self.tok_idx).copied()
"""))
ref("ep-peekn-while", EPC, (EP, """    for _ in 0..n {
      self.tok_idx += 1;
      ret = self.peek();
    }
""", """    let mut left = n;
    while left > 0 {
      self.tok_idx += 1;
      ret = self.peek();
      left -= 1;
    }
"""))
ref("ep-bump-order", EPC, (EP, """    self.events.push(Some(Event::Token));
    self.tok_idx += 1;
    self.consumed += 1;
    ret
""", """    self.consumed += 1;
    self.tok_idx += 1;
    self.events.push(Some(Event::Token));
    ret
"""))
ref("ep-bump-match", EPC, (EP, """    let ret = self.peek().expect("bump with no tokens");
    self.events.push""", """    let Some(ret) = self.peek() else { panic!("bump with no tokens") };
    self.events.push"""))
ref("ep-eat-early", EPC, (EP, """    if self.at(kind) {
      Some(self.bump())
    } else {
      self.error(E::expected(kind));
      None
    }
""", """    if !self.at(kind) {
      self.error(E::expected(kind));
      return None;
    }
    Some(self.bump())
"""))
ref("ep-at-match", EPC, (EP, "    self.peek_n(n).is_some_and(|tok| tok.kind == kind)", "    match self.peek_n(n) {\n      Some(tok) => tok.kind == kind,\n      None => false,\n    }"))
ref("ep-oksince-loop", EPC, (EP, """    let error_since =
      self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));
""", """    let mut error_since = false;
    for ev in self.events.iter().skip(save.events_len) {
      if let Some(Event::Error(..)) = ev {
        error_since = true;
        break;
      }
    }
"""))
ref("ep-oksince-slice", EPC, (EP, """    let error_since =
      self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));
    if error_since {
      self.tok_idx = save.tok_idx;
      self.consumed = save.consumed;
      self.events.truncate(save.events_len);
    }
    !error_since
""", """    let ok = !self.events.iter().skip(save.events_len).any(Self::is_error);
    if !ok {
      let Save { tok_idx, consumed, events_len } = save;
      self.events.truncate(events_len);
      self.tok_idx = tok_idx;
      self.consumed = consumed;
    }
    ok
"""), (EP, """  /// Save the state of the parser.
""", """  fn is_error(ev: &Option<Event<K, E>>) -> bool {
    matches!(ev, Some(Event::Error(..)))
  }

  /// Save the state of the parser.
"""))
ref("ep-trivia-let", EPC, (EP, """    while let Some(&tok) = self.tokens.get(self.tok_idx) {
      if !tok.kind.is_trivia() {
        break;
      }
      self.token(to_enter, sink, tok);
    }
""", """    loop {
      match self.tokens.get(self.tok_idx) {
        Some(&tok) if tok.kind.is_trivia() => self.token(to_enter, sink, tok),
        _ => break,
      }
    }
"""))
ref("ep-token-foreach", EPC, (EP, """    for kind in to_enter.drain(..) {
      sink.enter(kind);
    }
    sink.token(tok);
    self.tok_idx += 1;
""", """    self.tok_idx += 1;
    to_enter.drain(..).for_each(|kind| sink.enter(kind));
    sink.token(tok);
"""))
ref("ep-token-take", EPC, (EP, """    for kind in to_enter.drain(..) {
      sink.enter(kind);
    }
    sink.token(tok);
""", """    for kind in std::mem::take(to_enter) {
      sink.enter(kind);
    }
    sink.token(tok);
"""))
ref("ep-finish-while", EPC, (EP, """    for idx in 0..self.events.len() {
      let Some(ev) = self.events[idx].take() else { continue };
      match ev {""", """    let n = self.events.len();
    let mut next = 0;
    while next < n {
      let idx = next;
      next += 1;
      let Some(ev) = self.events[idx].take() else { continue };
      match ev {"""))
ref("ep-finish-match", EPC, (EP, """      let Some(ev) = self.events[idx].take() else { continue };
      match ev {
        Event::Enter(kind, mut parent) => {
          assert!(kinds.is_empty());
          if fst.is_none() {
            fst = Some(kind);
          }
          kinds.push(kind);
""", """      let ev = match self.events[idx].take() {
        Some(ev) => ev,
        None => continue,
      };
      match ev {
        Event::Enter(kind, mut parent) => {
          assert!(kinds.is_empty());
          fst.get_or_insert(kind);
          kinds.push(kind);
"""))
ref("ep-finish-levels", EPC, (EP, """          for kind in kinds.drain(..).rev() {
            // keep""", """          while let Some(kind) = kinds.pop() {
            // keep"""))
ref("ep-finish-helper", EPC, (EP, """        Event::Exit => {
          if to_enter.pop().is_none() {
            sink.exit();
          }
          levels -= 1;
          // keep as much trivia as possible outside of top-level items.
          if levels == 1 {
            self.eat_trivia(&mut to_enter, sink);
          }
        }
""", """        Event::Exit => self.on_exit(&mut to_enter, &mut levels, sink),
"""), (EP, """  /// Finishes parsing, and writes""", """  fn on_exit(&mut self, to_enter: &mut Vec<K>, levels: &mut usize, sink: &mut dyn Sink<K, E>) {
    *levels -= 1;
    if to_enter.pop().is_none() {
      sink.exit();
    }
    if *levels == 1 {
      self.eat_trivia(to_enter, sink);
    }
  }

  /// Finishes parsing, and writes"""))
ref("ep-finish-parents", EPC, (EP, """          while let Some(p) = parent {
            match self.events[p].take() {
              Some(Event::Enter(kind, new_parent)) => {
                kinds.push(kind);
                parent = new_parent;
              }
              // abandoned precede
              None => break,
              ev => unreachable!("{:?} was {:?}, not Enter", parent, ev),
            }
          }
""", """          loop {
            let Some(p) = parent else { break };
            let Some(ev) = self.events[p].take() else { break };
            let Event::Enter(kind, new_parent) = ev else { unreachable!("{:?} was {:?}, not Enter", parent, ev) };
            kinds.push(kind);
            parent = new_parent;
          }
"""))
ref("ep-finish-empty", EPC, (EP, """    assert_eq!(levels, 0);
    // give an empty node for the empty parse
    if self.tok_idx == 0 {
      if let Some(fst) = fst {
        sink.enter(fst);
        sink.exit();
      }
    }
""", """    assert!(levels == 0);
    // give an empty node for the empty parse
    match fst {
      Some(fst) if self.tok_idx == 0 => {
        sink.enter(fst);
        sink.exit();
      }
      _ => {}
    }
"""))
ref("ep-enter-order", EPC, (EP, """    let ev_idx = self.events.len();
    self.events.push(None);
    let bomb = DropBomb::new("Entered markers must be exited");
    Entered { bomb, ev_idx, consumed: self.consumed, child: None }
""", """    self.events.push(None);
    Entered {
      ev_idx: self.events.len() - 1,
      consumed: self.consumed,
      child: None,
      bomb: DropBomb::new("Entered markers must be exited"),
    }
"""))
ref("ep-exit-order", EPC, (EP, """    en.bomb.defuse();
    let ev = &mut self.events[en.ev_idx];
    assert!(ev.is_none());
    *ev = Some(Event::Enter(kind, None));
    self.events.push(Some(Event::Exit));
    let is_empty = self.consumed == en.consumed;
""", """    let is_empty = self.consumed == en.consumed;
    en.bomb.defuse();
    let old = self.events[en.ev_idx].replace(Event::Enter(kind, None));
    assert!(old.is_none());
    self.events.push(Some(Event::Exit));
"""))
ref("ep-precede-match", EPC, (EP, """    match self.events[ex.ev_idx] {
      Some(Event::Enter(_, ref mut parent)) => {
        assert!(parent.is_none());
        *parent = Some(ret.ev_idx);
      }
      ref ev => unreachable!("{:?} preceded {:?}, not Enter", ex, ev),
    }
""", """    if let Some(Event::Enter(_, parent)) = &mut self.events[ex.ev_idx] {
      assert!(parent.is_none());
      *parent = Some(ret.ev_idx);
    } else {
      unreachable!("{:?} preceded something that is not Enter", ex)
    }
"""))
ref("rs-token-order", "C09 C39 C40 C41", (RS, """    let kind = token.kind.clone();
    let is_trivia = token.kind.is_trivia();
    self.builder.token(token.kind.into(), token.text);
    let start = self.cur.0.end();
    let end = start + TextSize::of(token.text);
    self.cur = (TextRange::new(start, end), Some(kind));
    if !is_trivia {
      self.extend_errors();
    }
""", """    let Token { kind, text } = token;
    let trivia = kind.is_trivia();
    let start = self.cur.0.end();
    self.cur = (TextRange::at(start, TextSize::of(text)), Some(kind.clone()));
    self.builder.token(kind.into(), text);
    if trivia {
      return;
    }
    self.extend_errors();
"""))
ref("rs-extend-loop", "C09 C39 C40 C41", (RS, """    let errors = std::mem::take(&mut self.no_range).into_iter().map(|inner| Error {
      range: self.cur.0,
      kind: self.cur.1.clone(),
      inner,
    });
    self.errors.extend(errors);
""", """    let (range, ref kind) = self.cur;
    for inner in self.no_range.drain(..) {
      self.errors.push(Error { range, kind: kind.clone(), inner });
    }
"""))
ref("rs-finish", "C09 C39 C40 C41", (RS, """    self.extend_errors();
    let root = SyntaxNode::new_root(self.builder.finish());
    (root, self.errors)
""", """    self.extend_errors();
    let Self { builder, errors, .. } = self;
    (SyntaxNode::new_root(builder.finish()), errors)
"""))

# ---------------------------------------------------------------- chain-map
CMF = "crates/chain-map/src/lib.rs"
CMC = "C21 C22 C39 C40 C41"
ref("cm-insert-any", CMC, (CMF, "    let is_new = self.stack.iter().all(|m| !m.contains_key(&k));\n", "    let is_new = !self.stack.iter().any(|m| m.contains_key(&k));\n"))
ref("cm-insert-get", CMC, (CMF, "    let is_new = self.stack.iter().all(|m| !m.contains_key(&k));\n", "    let is_new = self.get(&k).is_none();\n"))
ref("cm-insert-newmap", CMC, (CMF, "    self.stack.push(Rc::new(map([(k, v)])));\n", "    let mut m = FxHashMap::default();\n    m.insert(k, v);\n    self.stack.push(Rc::new(m));\n"))
ref("cm-get-loop", CMC, (CMF, "    self.stack.iter().rev().find_map(|m| m.get(k))", "    for m in self.stack.iter().rev() {\n      if let Some(v) = m.get(k) {\n        return Some(v);\n      }\n    }\n    None"))
ref("cm-get-filter", CMC, (CMF, "    self.stack.iter().rev().find_map(|m| m.get(k))", "    let m = self.stack.iter().rev().find(|m| m.contains_key(k))?;\n    m.get(k)"))
ref("cm-empty-any", CMC, (CMF, "    self.stack.iter().all(|x| x.is_empty())", "    !self.stack.iter().any(|x| !x.is_empty())"))
ref("cm-empty-loop", CMC, (CMF, "    self.stack.iter().all(|x| x.is_empty())", "    for x in &self.stack {\n      if !x.is_empty() {\n        return false;\n      }\n    }\n    true"))
ref("cm-iter-filter", CMC, (CMF, """    let is_len_one = self.stack.len() == 1;
    let mut iter = self.stack.iter().rev().flat_map(|x| x.iter());
    let mut seen = FxHashSet::<&K>::default();
    std::iter::from_fn(move || {
      loop {
        let (k, v) = iter.next()?;
        if is_len_one || seen.insert(k) {
          return Some((k, v));
        }
      }
    })
""", """    let is_len_one = self.stack.len() == 1;
    let mut seen = FxHashSet::<&K>::default();
    self.stack.iter().rev().flat_map(|x| x.iter()).filter(move |&(k, _)| is_len_one || seen.insert(k))
"""))
ref("cm-iter-noopt", CMC, (CMF, "        if is_len_one || seen.insert(k) {", "        if seen.insert(k) {"), (CMF, "    let is_len_one = self.stack.len() == 1;\n", ""))
ref("cm-cons-match", CMC, (CMF, "        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());\n        one.extend(m);\n", "        match Rc::try_unwrap(m) {\n          Ok(m) => one.extend(m),\n          Err(m) => one.extend((*m).clone()),\n        }\n"))
ref("cm-cons-take", CMC, (CMF, "      for m in self.stack.drain(..) {", "      for m in std::mem::take(&mut self.stack) {"))
ref("cm-cons-early", CMC, (CMF, """    if self.stack.len() != 1 {
      let mut one""", """    if self.stack.len() == 1 {
    } else {
      let mut one"""))
ref("cm-cons-clone", CMC, (CMF, "        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());\n        one.extend(m);\n", "        one.extend(Rc::unwrap_or_clone(m));\n"))
ref("cm-cons-index", CMC, (CMF, "    Rc::make_mut(self.stack.first_mut().unwrap())", "    Rc::make_mut(&mut self.stack[0])"))
ref("cm-cons-last", CMC, (CMF, "    Rc::make_mut(self.stack.first_mut().unwrap())", "    let top = self.stack.last_mut().expect(\"just pushed\");\n    Rc::make_mut(top)"))
ref("cm-extend-loop", CMC, (CMF, "    let top: FxHashMap<_, _> = iter.into_iter().collect();\n", "    let mut top = FxHashMap::default();\n    for (k, v) in iter {\n      top.insert(k, v);\n    }\n"))
ref("cm-from-iter", CMC, (CMF, "    let mut ret = Self::default();\n    ret.extend(iter);\n    ret\n", "    Self { stack: vec![Rc::new(iter.into_iter().collect())] }\n"))
ref("cm-into-iter", CMC, (CMF, "    IntoIter(std::mem::take(self.consolidate_()).into_iter())", "    let m = std::mem::take(self.consolidate_());\n    IntoIter(m.into_iter())"))
ref("cm-append-extend", CMC, (CMF, "    self.stack.append(&mut other.stack);", "    self.stack.extend(other.stack.drain(..));"))
ref("cm-append-take", CMC, (CMF, "    self.stack.append(&mut other.stack);", "    self.stack.extend(std::mem::take(&mut other.stack));"))

# ---------------------------------------------------------------- paths
PA = "crates/paths/src/lib.rs"
PAC = "C14 C15 C16 C17 C39 C40 C41 C44"
ref("pa-getid-entry", PAC, (PA, """    if let Some(x) = self.path_to_id.get(path) {
      *x
    } else {
      let id = PathId(idx::Idx::new(self.id_to_path.len()));
      self.id_to_path.push(path.to_owned());
      self.path_to_id.insert(path.to_owned(), id);
      id
    }
""", """    if let Some(&x) = self.path_to_id.get(path) {
      return x;
    }
    self.get_id_owned(path.to_owned())
"""))
ref("pa-getid-match", PAC, (PA, """    if let Some(x) = self.path_to_id.get(&path) {
      *x
    } else {
      let id = PathId(idx::Idx::new(self.id_to_path.len()));
      self.id_to_path.push(path.clone());
      self.path_to_id.insert(path, id);
      id
    }
""", """    match self.path_to_id.get(&path).copied() {
      Some(x) => x,
      None => self.add(path),
    }
"""), (PA, """  /// Returns the path for this ID.
""" if False else """  #[must_use]
  pub fn get_path(""", """  fn add(&mut self, path: CleanPathBuf) -> PathId {
    let id = PathId(idx::Idx::new(self.id_to_path.len()));
    self.path_to_id.insert(path.clone(), id);
    self.id_to_path.push(path);
    id
  }

  #[must_use]
  pub fn get_path("""))
ref("pa-combine-foreach", PAC, (PA, """    for (idx, path) in other.id_to_path.into_iter().enumerate() {
      let old = PathId(idx::Idx::new(idx));
      let new = self.get_id_owned(path);
      f(old, new);
    }
""", """    let mut idx = 0;
    for path in other.id_to_path {
      let new = self.get_id_owned(path);
      f(PathId(idx::Idx::new(idx)), new);
      idx += 1;
    }
"""))
ref("pa-clean-flag", PAC, (PA, """        Component::CurDir => {}
        Component::ParentDir => {
          // ignore if we have no parent
          ret.pop();
        }
        Component::Normal(c) => ret.push(c),
""", """        Component::Normal(c) => {
          ret.push(c);
        }
        Component::ParentDir => _ = ret.pop(),
        Component::CurDir => continue,
"""))
ref("pa-clean-noprefix", PAC, (PA, """    let mut ret = if let Some(&c @ Component::Prefix(..)) = components.peek() {
      components.next();
      PathBuf::from(c.as_os_str())
    } else {
      PathBuf::new()
    };
""", """    let mut ret = PathBuf::new();
    if let Some(&c @ Component::Prefix(..)) = components.peek() {
      components.next();
      ret = PathBuf::from(c.as_os_str());
    }
"""))
ref("pa-new-if", PAC, (PA, "    path.is_absolute().then(|| Self::new_unchecked(path))", "    if path.is_absolute() {\n      Some(Self::new_unchecked(path))\n    } else {\n      None\n    }"))
ref("pa-push-temp", PAC, (PA, "    self.0.push(path);\n    *self = Self::new_unchecked(self.as_path());", "    let joined = self.0.join(path);\n    *self = Self::new_unchecked(&joined);"))
ref("pa-parent-match", PAC, (PA, "    self.0.parent().map(CleanPath::new_unchecked)", "    match self.0.parent() {\n      Some(p) => Some(CleanPath::new_unchecked(p)),\n      None => None,\n    }"))
ref("pa-join", PAC, (PA, "    let mut ret = self.to_owned();\n    ret.push(other);\n    ret", "    let joined = self.as_path().join(other);\n    CleanPathBuf::new_unchecked(&joined)"))
ref("pa-mem-ok-or", PAC, (PA, """    match self.inner.get(path) {
      Some(x) => Ok(x.clone()),
      None => Err(std::io::Error::from(std::io::ErrorKind::NotFound)),
    }
""", """    self.inner.get(path).cloned().ok_or_else(|| std::io::ErrorKind::NotFound.into())
"""))
ref("pa-mem-bytes", PAC, (PA, "    self.read_to_string(path).map(String::into_bytes)", "    let s = self.read_to_string(path)?;\n    Ok(s.into_bytes())"))
ref("pa-mem-dir", PAC, (PA, """    let iter = self.inner.keys().filter_map(|pb| {
      let p = pb.as_path();
      (p.starts_with(path) && p != path).then(|| pb.to_owned().into_path_buf())
    });
    Ok(iter.collect())
""", """    let mut ret = Vec::new();
    for pb in self.inner.keys() {
      let p = pb.as_path();
      if p != path && p.starts_with(path) {
        ret.push(p.to_owned());
      }
    }
    Ok(ret)
"""))
ref("pa-mem-file", PAC, (PA, "    self.inner.contains_key(path)", "    self.inner.get(path).is_some()"))
ref("pa-real-dir", PAC, (PA, "    std::fs::read_dir(path)?.map(|x| Ok(x?.path())).collect()", "    let mut ret = Vec::new();\n    for x in std::fs::read_dir(path)? {\n      ret.push(x?.path());\n    }\n    Ok(ret)"))
ref("pa-real-cwd", PAC, (PA, """    match CleanPathBuf::new(std::env::current_dir()?) {
      Some(x) => Ok(x),
      None => Err(std::io::Error::other("path from `std::env::current_dir` was not absolute")),
    }
""", """    let dir = std::env::current_dir()?;
    CleanPathBuf::new(dir).ok_or_else(|| std::io::Error::other("the current directory was not absolute"))
"""))

# ---------------------------------------------------------------- the smaller crates
X = " C39 C40 C41"
TP = "crates/text-pos/src/lib.rs"
ref("tp-pos-match", "C18 C19" + X, (TP, "    self.position_to_utf16(self.position_utf8(text_size)?)", "    let pos = match self.position_utf8(text_size) {\n      Some(p) => p,\n      None => return None,\n    };\n    self.position_to_utf16(pos)"))
ref("tp-pos-and-then", "C18 C19" + X, (TP, "    self.position_to_utf16(self.position_utf8(text_size)?)", "    self.position_utf8(text_size).and_then(|p| self.position_to_utf16(p))"))
ref("tp-pos-map", "C18 C19" + X, (TP, "    let lc = self.inner.try_line_col(text_size)?;\n    Some(PositionUtf8 { line: lc.line, col: lc.col })", "    self.inner.try_line_col(text_size).map(|lc| PositionUtf8 { line: lc.line, col: lc.col })"))
ref("tp-range-order", "C18 C19" + X, (TP, """    Some(RangeUtf8 {
      start: self.position_utf8(text_range.start())?,
      end: self.position_utf8(text_range.end())?,
    })
""", """    let end = self.position_utf8(text_range.end())?;
    let start = self.position_utf8(text_range.start())?;
    Some(RangeUtf8 { start, end })
"""))
ref("tp-range-direct", "C18 C19" + X, (TP, "    self.range_to_utf16(self.range_utf8(text_range)?)", "    let start = self.position_utf16(text_range.start())?;\n    let end = self.position_utf16(text_range.end())?;\n    Some(RangeUtf16 { start, end })"))
ref("tp-trange-if", "C18 C19" + X, (TP, "    (start <= end).then(|| TextRange::new(start, end))", "    if start > end {\n      return None;\n    }\n    Some(TextRange::new(start, end))"))
ref("tp-size-if", "C18 C19" + X, (TP, "    (self.inner.try_line_col(ret)? == lc).then_some(ret)", "    let back = self.inner.try_line_col(ret)?;\n    if back.line == lc.line && back.col == lc.col { Some(ret) } else { None }"))
ref("tp-end-let", "C18 C19" + X, (TP, "    let pos = self.position_utf8(self.len()).expect(\"len is in range\");\n    self.position_to_utf16(pos).expect(\"len can be utf-16\")", "    self.position_utf16(self.inner.len()).expect(\"len is in range\")"))
ref("tp-range-fmt", "C18 C19 C37" + X, (TP, """    if self.start.line == self.end.line {
      write!(f, "{}-{}", self.start, self.end.col + 1)
    } else {
      write!(f, "{}-{}", self.start, self.end)
    }
""", """    write!(f, "{}-", self.start)?;
    if self.start.line != self.end.line {
      write!(f, "{}", self.end)
    } else {
      write!(f, "{}", self.end.col + 1)
    }
"""))
AC = "crates/apply-changes/src/lib.rs"
ref("ac-loop", "C20" + X, (AC, """  let changes = match changes.iter().rposition(|change| change.range.is_none()) {
    Some(idx) => {
      *contents = std::mem::take(&mut changes[idx].text);
      &changes[idx + 1..]
    }
    None => &changes[..],
  };
""", """  let mut skip = 0;
  if let Some(idx) = changes.iter().rposition(|change| change.range.is_none()) {
    *contents = std::mem::take(&mut changes[idx].text);
    skip = idx + 1;
  }
  let changes = &changes[skip..];
"""))
ref("ac-noempty", "C20" + X, (AC, "  if changes.is_empty() {\n    return;\n  }\n", ""))
ref("ac-match", "C20" + X, (AC, """    if let Some(text_range) = pos_db.text_range_utf16(range) {
      contents.replace_range(std::ops::Range::<usize>::from(text_range), &change.text);
      index_valid = range.start.line;
    }
""", """    let Some(text_range) = pos_db.text_range_utf16(range) else { continue };
    let start = usize::from(text_range.start());
    let end = usize::from(text_range.end());
    contents.replace_range(start..end, &change.text);
    index_valid = range.start.line;
"""))
ref("ac-clone", "C20" + X, (AC, "      *contents = std::mem::take(&mut changes[idx].text);\n", "      *contents = changes[idx].text.clone();\n"), (AC, "mut changes: Vec<Change>", "changes: Vec<Change>"))
ref("ac-drain", "C20" + X, (AC, """  let changes = match changes.iter().rposition(|change| change.range.is_none()) {
    Some(idx) => {
      *contents = std::mem::take(&mut changes[idx].text);
      &changes[idx + 1..]
    }
    None => &changes[..],
  };
""", """  let full = changes.iter().rposition(|change| change.range.is_none());
  if let Some(idx) = full {
    changes.drain(..idx);
    *contents = changes.remove(0).text;
  }
"""))
ref("ac-always-rebuild", "C20" + X, (AC, """    if index_valid <= range.end.line {
      pos_db = text_pos::PositionDb::new(contents);
    }
""", """    pos_db = text_pos::PositionDb::new(contents);
"""), (AC, "      index_valid = range.start.line;\n", ""), (AC, "  let mut index_valid = u32::MAX;\n", ""), (AC, "  let mut pos_db = text_pos::PositionDb::new(contents);\n", "  let mut pos_db;\n"))
SPF = "crates/str-process/src/lib.rs"
ref("sp-cur-match", "C32" + X, (SPF, "    self.s.as_bytes().get(self.idx).copied()", "    match self.s.as_bytes().get(self.idx) {\n      Some(b) => Some(*b),\n      None => None,\n    }"))
ref("sp-cur-if", "C32" + X, (SPF, "    self.s.as_bytes().get(self.idx).copied()", "    if self.idx < self.s.len() { Some(self.s.as_bytes()[self.idx]) } else { None }"))
ref("sp-while-loop", "C32" + X, (SPF, """    while let Some(b) = self.cur() {
      if cond(b) {
        self.bump();
      } else {
        break;
      }
    }
""", """    loop {
      match self.cur() {
        Some(b) if cond(b) => self.bump(),
        _ => return,
      }
    }
"""))
ref("sp-while-is-some", "C32" + X, (SPF, """    while let Some(b) = self.cur() {
      if cond(b) {
        self.bump();
      } else {
        break;
      }
    }
""", """    while self.cur().is_some_and(&mut cond) {
      self.bump();
    }
"""))
ref("sp-prefix-starts", "C32" + X, (SPF, """    let end = self.idx + prefix.len();
    if self.s.as_bytes().get(self.idx..end).is_some_and(|bs| bs == prefix) {
      self.idx = end;
      true
    } else {
      false
    }
""", """    let Some(rest) = self.s.as_bytes().get(self.idx..) else { return false };
    let ret = rest.starts_with(prefix);
    if ret {
      self.idx += prefix.len();
    }
    ret
"""))
ref("sp-prefix-eq", "C32" + X, (SPF, """    if self.s.as_bytes().get(self.idx..end).is_some_and(|bs| bs == prefix) {
      self.idx = end;
      true
    } else {
      false
    }
""", """    let ret = self.s.as_bytes().get(self.idx..end) == Some(prefix);
    if ret {
      self.idx = end;
    }
    ret
"""))
ref("sp-next-while", "C32" + X, (SPF, """    loop {
      if self.s.is_char_boundary(self.idx) {
        break;
      }
      match self.cur() {
        Some(_) => self.bump(),
        None => unreachable!("got to the end without a valid str"),
      }
    }
""", """    while !self.s.is_char_boundary(self.idx) {
      assert!(self.cur().is_some(), "got to the end without a valid str");
      self.idx += 1;
    }
"""))
ref("sp-nonempty", "C32" + X, (SPF, """    let start = m.idx;
    assert!(self.did_bump_since(m));
    &self.s.as_bytes()[start..self.idx]
""", """    let ret = self.since(m);
    assert!(!ret.is_empty());
    ret
"""))
SU = "crates/str-util/src/lib.rs"
ref("su-if", "C33 C37" + X, (SU, "    (!s.is_empty()).then_some(Self(s))", "    if s.is_empty() { None } else { Some(Self(s)) }"))
ref("su-len", "C33 C37" + X, (SU, "    (!s.is_empty()).then_some(Self(s))", "    if s.len() == 0 {\n      return None;\n    }\n    Some(Self(s))"))
ref("su-new", "C33 C37" + X, (SU, "    Self::try_new(s).expect(\"empty string for Name\")", "    match Self::try_new(s) {\n      Some(name) => name,\n      None => panic!(\"empty string for Name\"),\n    }"))
ref("su-fmt", "C33 C37" + X, (SU, "    write!(f, \"{}\", self.0)", "    f.write_str(self.as_str())"))
IC = "crates/identifier-case/src/lib.rs"
ref("ic-snake-match", "C31" + X, (IC, """    if c == '_' {
      is_cap = true;
    } else if is_cap {
      is_cap = false;
      ret.push(c.to_ascii_uppercase());
    } else {
      ret.push(c.to_ascii_lowercase());
    }
""", """    match c {
      '_' => is_cap = true,
      _ => {
        ret.push(if is_cap { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() });
        is_cap = false;
      }
    }
"""))
ref("ic-snake-continue", "C31" + X, (IC, """    if c == '_' {
      is_cap = true;
    } else if is_cap {
      is_cap = false;
      ret.push(c.to_ascii_uppercase());
    } else {
      ret.push(c.to_ascii_lowercase());
    }
""", """    if c == '_' {
      is_cap = true;
      continue;
    }
    let c = if std::mem::take(&mut is_cap) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    ret.push(c);
"""))
ref("ic-pascal-first", "C31" + X, (IC, """    if let Some(c) = cs.next() {
    ret.push(c.to_ascii_lowercase());
  }
  for c in cs {
    if c.is_ascii_uppercase() {
      ret.push('_');
    }
    ret.push(c.to_ascii_lowercase());
  }
""", ""))
del REF["ic-pascal-first"]
ref("ic-pascal-flag", "C31" + X, (IC, """  let mut cs = s.chars();
  // don't put a _ at the start
  if let Some(c) = cs.next() {
    ret.push(c.to_ascii_lowercase());
  }
  for c in cs {
    if c.is_ascii_uppercase() {
      ret.push('_');
    }
    ret.push(c.to_ascii_lowercase());
  }
""", """  let mut first = true;
  for c in s.chars() {
    // don't put a _ at the start
    if !first && c.is_ascii_uppercase() {
      ret.push('_');
    }
    first = false;
    ret.push(c.to_ascii_lowercase());
  }
"""))
ref("ic-pascal-empty", "C31" + X, (IC, """  let mut cs = s.chars();
  // don't put a _ at the start
  if let Some(c) = cs.next() {
    ret.push(c.to_ascii_lowercase());
  }
  for c in cs {
    if c.is_ascii_uppercase() {
      ret.push('_');
    }
    ret.push(c.to_ascii_lowercase());
  }
""", """  for c in s.chars() {
    // don't put a _ at the start
    if c.is_ascii_uppercase() && !ret.is_empty() {
      ret.push('_');
    }
    ret.push(c.to_ascii_lowercase());
  }
"""))
ref("ic-pascal-enum", "C31" + X, (IC, """  let mut cs = s.chars();
  // don't put a _ at the start
  if let Some(c) = cs.next() {
    ret.push(c.to_ascii_lowercase());
  }
  for c in cs {
    if c.is_ascii_uppercase() {
      ret.push('_');
    }
    ret.push(c.to_ascii_lowercase());
  }
""", """  for (idx, c) in s.chars().enumerate() {
    // don't put a _ at the start
    if idx != 0 && c.is_ascii_uppercase() {
      ret.push('_');
    }
    ret.push(c.to_ascii_lowercase());
  }
"""))
MD = "crates/code-h2-md-map/src/lib.rs"
ref("md-iflet", "C36" + X, (MD, """    match code_h2(line) {
      Some(next) => {
        if let Some(key) = key {
          assert!(ret.insert(key, val).is_none());
        }
        key = Some(next);
        val = f(next);
      }
      None => {
        val.push('\\n');
        val.push_str(line);
      }
    }
""", """    if let Some(next) = code_h2(line) {
      if let Some(old) = key.replace(next) {
        assert!(ret.insert(old, val).is_none());
      }
      val = f(next);
    } else {
      val.push('\\n');
      val += line;
    }
"""))
ref("md-take", "C36" + X, (MD, """        if let Some(key) = key {
          assert!(ret.insert(key, val).is_none());
        }
        key = Some(next);
        val = f(next);
""", """        let old = std::mem::replace(&mut val, f(next));
        if let Some(key) = key {
          let prev = ret.insert(key, old);
          assert!(prev.is_none());
        }
        key = Some(next);
"""))
ref("md-pair", "C36" + X, (MD, "  let mut key = None::<&str>;\n  let mut val = String::new();\n", "  let mut cur = None::<(&str, String)>;\n"), (MD, """        if let Some(key) = key {
          assert!(ret.insert(key, val).is_none());
        }
        key = Some(next);
        val = f(next);
      }
      None => {
        val.push('\\n');
        val.push_str(line);
      }
    }
  }
  if let Some(key) = key {
    assert!(ret.insert(key, val).is_none());
  }
""", """        if let Some((key, val)) = cur {
          assert!(ret.insert(key, val).is_none());
        }
        cur = Some((next, f(next)));
      }
      None => {
        if let Some((_, val)) = &mut cur {
          val.push('\\n');
          val.push_str(line);
        }
      }
    }
  }
  if let Some((key, val)) = cur {
    assert!(ret.insert(key, val).is_none());
  }
"""))
ref("md-h2-match", "C36" + X, (MD, """  let mut ret = s.strip_prefix("## `")?.strip_suffix('`')?;
  if ret == "` ` `" {
    ret = "`";
  }
  Some(ret)
""", """  let ret = s.strip_prefix("## `").and_then(|s| s.strip_suffix('`'))?;
  Some(if ret == "` ` `" { "`" } else { ret })
"""))
DG = "crates/diagnostic/src/lib.rs"
ref("dg-sev", "C37 C35" + X, (DG, """    match self {
      Severity::Warning => f.write_str("warning"),
      Severity::Error => f.write_str("error"),
    }
""", """    let s = match *self {
      Severity::Error => "error",
      Severity::Warning => "warning",
    };
    f.write_str(s)
"""))
ref("dg-fmt", "C37 C35" + X, (DG, "    write!(f, \"{}: {}: {}\", self.range, self.severity, self.message)", "    write!(f, \"{}: {}\", self.range, self.severity)?;\n    f.write_str(\": \")?;\n    f.write_str(&self.message)"))
ref("dg-parse-map", "C37 C35" + X, (DG, """    match u16::from_str(s) {
      Ok(n) => Ok(Self(n)),
      Err(e) => Err(ParseCodeError(e)),
    }
""", """    u16::from_str(s).map(Self).map_err(ParseCodeError)
"""))
ref("dg-parse-q", "C37 C35" + X, (DG, """    match u16::from_str(s) {
      Ok(n) => Ok(Self(n)),
      Err(e) => Err(ParseCodeError(e)),
    }
""", """    let n: u16 = s.parse().map_err(ParseCodeError)?;
    Ok(Code(n))
"""))
ref("dg-i32", "C37 C35" + X, (DG, "    self.0.into()", "    i32::from(self.0)"))
ref("dg-code-fmt", "C37 C35" + X, (DG, "    self.0.fmt(f)", "    fmt::Display::fmt(&self.0, f)"))
FU = "crates/fmt-util/src/lib.rs"
ref("fu-flag", "C37" + X, (FU, """  if let Some(x) = iter.next() {
    x.fmt(f)?;
  }
  for x in iter {
    f.write_str(sep)?;
    x.fmt(f)?;
  }
  Ok(())
""", """  let mut first = true;
  for x in iter {
    if !first {
      f.write_str(sep)?;
    }
    first = false;
    x.fmt(f)?;
  }
  Ok(())
"""), (FU, "mut iter: I", "iter: I"))
ref("fu-early", "C37" + X, (FU, """  if let Some(x) = iter.next() {
    x.fmt(f)?;
  }
""", """  let Some(first) = iter.next() else { return Ok(()) };
  first.fmt(f)?;
"""))
ref("fu-foreach", "C37" + X, (FU, """  for x in iter {
    f.write_str(sep)?;
    x.fmt(f)?;
  }
  Ok(())
""", """  iter.try_for_each(|x| {
    f.write_str(sep)?;
    x.fmt(f)
  })
"""))
ref("fu-enum", "C37" + X, (FU, """  if let Some(x) = iter.next() {
    x.fmt(f)?;
  }
  for x in iter {
    f.write_str(sep)?;
    x.fmt(f)?;
  }
  Ok(())
""", """  for (idx, x) in iter.enumerate() {
    if idx > 0 {
      f.write_str(sep)?;
    }
    x.fmt(f)?;
  }
  Ok(())
"""), (FU, "mut iter: I", "iter: I"))
CN = "crates/char-name/src/lib.rs"
ref("cn-some", "C27" + X, (CN, "    _ => return None,\n  };\n  Some(ret)", "    _ => \"\",\n  };\n  if ret.is_empty() { None } else { Some(ret) }"))
ref("cn-get-else", "C27" + X, (CN, """  match get_opt(c) {
    Some(s) => s,
    None => panic!("don't know the name for {c}"),
  }
""", """  let Some(s) = get_opt(c) else { panic!("don't know the name for {c}") };
  s
"""))
ref("cn-get-unwrap", "C27" + X, (CN, """  match get_opt(c) {
    Some(s) => s,
    None => panic!("don't know the name for {c}"),
  }
""", """  get_opt(c).unwrap_or_else(|| panic!("don't know the name for {c}"))
"""))
IX = "crates/idx/src/lib.rs"
ref("ix-from", "C35 C15" + X, (IX, "    Self(n.try_into().expect(\"couldn't convert to Idx\"))", "    match u32::try_from(n) {\n      Ok(n) => Self::new_u32(n),\n      Err(_) => panic!(\"couldn't convert to Idx\"),\n    }"))
ref("ix-assert", "C35 C15" + X, (IX, "    Self(n.try_into().expect(\"couldn't convert to Idx\"))", "    assert!(n <= u32::MAX as usize, \"couldn't convert to Idx\");\n    Self(n as u32)"))
UQ = "crates/uniq/src/lib.rs"
ref("uq-replace", "C34" + X, (UQ, "    let ret = Uniq(self.0);\n    // assuming overflow won't happen.\n    self.0 += 1;\n    ret", "    let next = self.0 + 1;\n    Uniq(core::mem::replace(&mut self.0, next))"))
ref("uq-checked", "C34" + X, (UQ, "    let ret = Uniq(self.0);\n    // assuming overflow won't happen.\n    self.0 += 1;\n    ret", "    let n = self.0;\n    self.0 = n.checked_add(1).expect(\"too many\");\n    Uniq(n)"))
TS2 = "crates/text-size-util/src/lib.rs"
ref("ts-wrap", "C44 C35" + X, (TS2, "    WithRange { val, range: self.range }", "    let Self { range, .. } = self;\n    WithRange { range: *range, val }"))
ref("ts-mk", "C44 C35" + X, (TS2, "  TextSize::try_from(n).expect(\"could not make text size\")", "  let n = u32::try_from(n).expect(\"could not make text size\");\n  TextSize::from(n)"))
ref("ts-mk2", "C44 C35" + X, (TS2, "  TextSize::try_from(n).expect(\"could not make text size\")", "  match TextSize::try_from(n) {\n    Ok(x) => x,\n    Err(e) => panic!(\"could not make text size: {e}\"),\n  }"))
WR = "crates/write-rs-tokens/src/lib.rs"
ref("wr-pathbuf", "C43" + X, (WR, "  let dst = std::path::Path::new(&out_dir).join(basename);\n", "  let mut dst = std::path::PathBuf::from(out_dir);\n  dst.push(basename);\n"))
ref("wr-order", "C43" + X, (WR, """  let out_dir = std::env::var_os("OUT_DIR").expect("no OUT_DIR env var");
  let dst = std::path::Path::new(&out_dir).join(basename);
  let file = syn::parse2(token_stream).expect("syn parse failed");
  let formatted = prettyplease::unparse(&file);
""", """  let file: syn::File = match syn::parse2(token_stream) {
    Ok(x) => x,
    Err(e) => panic!("syn parse failed: {e}"),
  };
  let formatted = prettyplease::unparse(&file);
  let Some(out_dir) = std::env::var_os("OUT_DIR") else { panic!("no OUT_DIR env var") };
  let dst = std::path::PathBuf::from(out_dir).join(basename);
"""))
ref("wr-file", "C43" + X, (WR, "  std::fs::write(dst, formatted).expect(\"io failed\");", "  use std::io::Write as _;\n  let mut out = std::fs::File::create(dst).expect(\"io failed\");\n  out.write_all(formatted.as_bytes()).expect(\"io failed\");"))
EL = "crates/elapsed/src/lib.rs"
ref("el-elapsed", "C38" + X, (EL, "  let elapsed = Instant::now().duration_since(start);\n  (res, elapsed)", "  (res, start.elapsed())"))
ref("el-sub", "C38" + X, (EL, "  let elapsed = Instant::now().duration_since(start);\n", "  let end = Instant::now();\n  let elapsed = end - start;\n"))
AL = "crates/always/src/convert.rs"
ref("al-else", "C35" + X, (AL, """  match u32::try_from(n) {
    Ok(x) => x,
    Err(e) => {
      always!(false, "convert {n} to u32: {e}");
      u32::MAX
    }
  }
""", """  u32::try_from(n).unwrap_or_else(|e| {
    always!(false, "convert {n} to u32: {e}");
    u32::MAX
  })
"""))
ref("al-if", "C35" + X, (AL, """  match u32::try_from(n) {
    Ok(x) => x,
    Err(e) => {
      always!(false, "convert {n} to u32: {e}");
      u32::MAX
    }
  }
""", """  if always!(n <= u32::MAX as usize, "convert {n} to u32") { n as u32 } else { u32::MAX }
"""))
FH = "crates/fast-hash/src/lib.rs"
ref("fh-entry", "C26" + X, (FH, "    assert!(ret.insert(k, v).is_none());", "    let old = ret.insert(k, v);\n    assert!(old.is_none());"))
ref("fh-check", "C26" + X, (FH, "    assert!(ret.insert(k, v).is_none());", "    assert!(!ret.contains_key(&k));\n    ret.insert(k, v);"))
ref("fh-len", "C26" + X, (FH, "  let mut ret = set_with_capacity(xs.len());\n  for k in xs {\n    assert!(ret.insert(k));\n  }\n  ret", "  let ret: FxHashSet<K> = xs.into_iter().collect();\n  assert_eq!(ret.len(), N);\n  ret"))
ref("fh-foreach", "C26" + X, (FH, "  for k in xs {\n    assert!(ret.insert(k));\n  }\n", "  xs.into_iter().for_each(|k| {\n    let new = ret.insert(k);\n    assert!(new);\n  });\n"))
SG = "crates/syntax-gen/src/lib.rs"
ref("sg-lang", "C43" + X, (SG, "  let ast_rs = ast::get(&cx.lang, &types, opts.file);\n  write_rs_tokens::go(ast_rs, \"ast.rs\");\n", "  write_rs_tokens::go(ast::get(&cx.lang, &types, opts.file), \"ast.rs\");\n"))
ref("sg-late", "C43" + X, (SG, "  write_rs_tokens::go(ast_rs, \"ast.rs\");\n", ""), (SG, "  write_rs_tokens::go(kind_rs, \"kind.rs\");\n", "  write_rs_tokens::go(ast_rs, \"ast.rs\");\n  write_rs_tokens::go(kind_rs, \"kind.rs\");\n"))
PM = "crates/pattern-match/src/alg.rs"
ref("pm-or-enum", "C10 C11 C12 C13 C39 C40 C41", (PM, "      for pat in pats {\n        get_pat_indices(ac, pat);\n      }\n    }\n  }\n}\n\n#[derive", "      pats.iter().for_each(|pat| get_pat_indices(ac, pat));\n    }\n  }\n}\n\n#[derive"))
PMX = "C10 C11 C12 C13 C39 C40 C41"
ref("pm-useful-if", PMX, (PM, "    return Ok(if mtx.num_rows() == 0 { Useful::yes() } else { Useful::no() });", "    if mtx.num_rows() == 0 {\n      return Ok(Useful::yes());\n    }\n    return Ok(Useful::no());"))
ref("pm-helper-rows", PMX, (PM, """        let mut m = Matrix::<L>::default();
        for row in mtx.non_empty_rows() {
          let new = specialize(cx, &ty, &row.con_pat, &con)?;
          if let Some(new) = new {
            let mut pats = row.pats.clone();
            pats.extend(new.into_iter().map(|(x, _)| x));
            m.push(pats);
          }
        }
""", """        let m = specialize_matrix(cx, &ty, mtx, &con)?;
"""), (PM, "/// Specializes a constructor pat.\n", """/// Specializes every row.
fn specialize_matrix<L: Lang>(cx: &mut L::Cx, ty: &L::Ty, mtx: &Matrix<L>, con: &L::Con) -> Result<Matrix<L>> {
  let mut m = Matrix::<L>::default();
  for row in mtx.non_empty_rows() {
    let Some(new) = specialize(cx, ty, &row.con_pat, con)? else { continue };
    m.push(row.pats.iter().cloned().chain(new.into_iter().map(|(x, _)| x)).collect());
  }
  Ok(m)
}

/// Specializes a constructor pat.
"""))
ref("pm-idx-pair", PMX, (PM, """  if let Some(idx) = idx {
    if !ret.witnesses.is_empty() {
      ac.remove(&idx);
    }
  }
  Ok(ret)""", """  if ret.witnesses.is_empty() {
    return Ok(ret);
  }
  if let Some(idx) = idx {
    ac.remove(&idx);
  }
  Ok(ret)"""))
ref("pm-special-match", PMX, (PM, """    let tys = L::get_arg_tys(cx, ty, val_con)?;
    let ret: Vec<_> = tys.into_iter().map(|t| (Pat::any_no_idx(), t)).rev().collect();
    Some(ret)
""", """    let mut ret = Vec::new();
    for t in L::get_arg_tys(cx, ty, val_con)?.into_iter().rev() {
      ret.push((Pat::any_no_idx(), t));
    }
    Some(ret)
"""))
ref("pm-special-pad", PMX, (PM, """    let mut ret: Vec<_> =
      pat.args.iter().cloned().chain(std::iter::repeat(Pat::any_no_idx())).zip(tys).collect();
    ret.reverse();
    Some(ret)
""", """    let mut args = pat.args.clone();
    while args.len() < tys.len() {
      args.push(Pat::any_no_idx());
    }
    Some(args.into_iter().zip(tys).rev().collect())
"""))
ref("pm-special-early", PMX, (PM, """  } else {
    None
  };
  Ok(ret)
}""", """  } else {
    return Ok(None);
  };
  Ok(ret)
}"""))
ref("pm-witness-map", PMX, (PM, """        let mut u = useful(cx, ac, depth + 1, &m, val)?;
        for w in &mut u.witnesses {
          let args: Vec<_> = w.drain(w.len() - new_len..).rev().collect();
          w.push(Pat::con_(con.clone(), args, idx));
        }
        ret.extend(u);
""", """        let u = useful(cx, ac, depth + 1, &m, val)?;
        for mut w in u.witnesses {
          let mut args = w.split_off(w.len() - new_len);
          args.reverse();
          w.push(Pat::con_(con.clone(), args, idx));
          ret.witnesses.push(w);
        }
"""))
ref("pm-or-clone", PMX, (PM, """        let mut val = val.clone();
        val.push((pat, ty.clone()));
        ret.extend(useful(cx, ac, depth + 1, &m, val.clone())?);
        m.push(val.into_iter().map(|(x, _)| x).collect());
""", """        let mut row: Vec<_> = val.iter().map(|(x, _)| x.clone()).collect();
        row.push(pat.clone());
        let mut val = val.clone();
        val.push((pat, ty.clone()));
        let u = useful(cx, ac, depth + 1, &m, val)?;
        m.push(row);
        ret.extend(u);
"""))
ref("pm-check-loop", PMX, (PM, """  let missing: Vec<_> = useful(cx, &mut ac, 0, &mtx, vec![(Pat::any_no_idx(), ty)])?
    .witnesses
    .into_iter()
    .map(|mut w| {
      assert_eq!(w.len(), 1);
      w.pop().expect("just checked length")
    })
    .collect();
  Ok(Check""", """  let last = useful(cx, &mut ac, 0, &mtx, vec![(Pat::any_no_idx(), ty)])?;
  let mut missing = Vec::new();
  for mut w in last.witnesses {
    assert_eq!(w.len(), 1);
    missing.extend(w.pop());
  }
  Ok(Check"""))
ref("pm-check-match", PMX, (PM, """    useful(cx, &mut ac, 0, &mtx, vec![(pat.clone(), ty.clone())])?;
    mtx.push(vec![pat]);
""", """    if let Err(e) = useful(cx, &mut ac, 0, &mtx, vec![(pat.clone(), ty.clone())]) {
      return Err(e);
    }
    mtx.push(vec![pat]);
"""))
PMM = "crates/pattern-match/src/matrix.rs"
ref("pm-push-extend", PMX, (PMM, """        for con_pat in con_pats {
          self.rows.push(Row::NonEmpty(NonEmptyRow { pats: row.clone(), con_pat }));
        }
""", """        let rows = con_pats.into_iter().map(|con_pat| Row::NonEmpty(NonEmptyRow { pats: row.clone(), con_pat }));
        self.rows.extend(rows);
"""))
ref("pm-expand-foreach", PMX, (PMM, """      for pat in pats {
        expand_or(ac, pat);
      }
""", """      pats.into_iter().for_each(|pat| expand_or(ac, pat));
"""))
ref("pm-derive-clone", PMX, (PMM, """    Self { pats: self.pats.clone(), con_pat: self.con_pat.clone() }""", """    let Self { pats, con_pat } = self;
    Self { pats: pats.clone(), con_pat: con_pat.clone() }"""))
ref("pm-collect-slice", PMX, (PM, """  match &pat.raw {
    RawPat::Con(con_pat) => {
      for pat in &con_pat.args {
        get_pat_indices(ac, pat);
      }
    }
    RawPat::Or(pats) => {
      for pat in pats {
        get_pat_indices(ac, pat);
      }
    }
  }
""", """  let pats = match &pat.raw {
    RawPat::Con(con_pat) => &con_pat.args,
    RawPat::Or(pats) => pats,
  };
  for pat in pats {
    get_pat_indices(ac, pat);
  }
"""))
ref("pm-split-fns", PMX, (PM, """    RawPat::Or(or_pats) => {
      let mut m = mtx.clone();
      for pat in or_pats {
        let mut val = val.clone();
        val.push((pat, ty.clone()));
        ret.extend(useful(cx, ac, depth + 1, &m, val.clone())?);
        m.push(val.into_iter().map(|(x, _)| x).collect());
      }
    }
""", """    RawPat::Or(or_pats) => ret = useful_or(cx, ac, depth, mtx, &val, or_pats, &ty)?,
"""), (PM, "/// Specializes a constructor pat.\n", """/// Whether any of the alternatives is useful.
fn useful_or<L: Lang>(
  cx: &mut L::Cx,
  ac: &mut FxHashSet<L::PatIdx>,
  depth: usize,
  mtx: &Matrix<L>,
  val: &[(Pat<L>, L::Ty)],
  or_pats: Vec<Pat<L>>,
  ty: &L::Ty,
) -> Result<Useful<Pat<L>>> {
  let mut ret = Useful::<Pat<L>>::no();
  let mut m = mtx.clone();
  for pat in or_pats {
    let mut val = val.to_vec();
    val.push((pat, ty.clone()));
    ret.extend(useful(cx, ac, depth + 1, &m, val.clone())?);
    m.push(val.into_iter().map(|(x, _)| x).collect());
  }
  Ok(ret)
}

/// Specializes a constructor pat.
"""))
ref("pm-witness-fn", PMX, (PM, """        for w in &mut u.witnesses {
          let args: Vec<_> = w.drain(w.len() - new_len..).rev().collect();
          w.push(Pat::con_(con.clone(), args, idx));
        }
        ret.extend(u);
""", """        u.witnesses.iter_mut().for_each(|w| unspecialize(w, new_len, &con, idx));
        ret.extend(u);
"""), (PM, "/// Specializes a constructor pat.\n", """/// Puts the arguments at the end of the witness under the constructor.
fn unspecialize<L: Lang>(w: &mut Vec<Pat<L>>, n: usize, con: &L::Con, idx: Option<L::PatIdx>) {
  let at = w.len() - n;
  let mut args = w.split_off(at);
  args.reverse();
  w.push(Pat::con_(con.clone(), args, idx));
}

/// Specializes a constructor pat.
"""))
ref("pm-debug-assert", PMX, (PM, "    assert_eq!(nc, val.len());", "    debug_assert_eq!(nc, val.len());"))
ref("pm-rows-if", PMX, (PM, """          if let Some(new) = new {
            let mut pats = row.pats.clone();
            pats.extend(new.into_iter().map(|(x, _)| x));
            m.push(pats);
          }
""", """          let Some(new) = new else { continue };
          let mut pats = row.pats.clone();
          for (x, _) in new {
            pats.push(x);
          }
          m.push(pats);
"""))
ref("pm-len-late", PMX, (PM, """        let new_len = new.len();
        let mut val = val.clone();
        val.extend(new);
""", """        let mut val = val.clone();
        let before = val.len();
        val.extend(new);
        let new_len = val.len() - before;
"""))
ref("pm-special-ok", PMX, (PM, """  let ret = if L::covers(&pat.con, &L::any()) {
    if !pat.args.is_empty() {
      return Err(CheckError("pat args was not empty"));
    }
""", """  let any = L::any();
  let ret = if L::covers(&pat.con, &any) {
    if let [_, ..] = pat.args.as_slice() {
      return Err(CheckError("pat args was not empty"));
    }
"""))

# ---------------------------------------------------------------- syntax-gen
SGK = "crates/syntax-gen/src/kind.rs"
SGT = "crates/syntax-gen/src/token.rs"
SGA = "crates/syntax-gen/src/alt.rs"
SGQ = "crates/syntax-gen/src/seq.rs"
SGS = "crates/syntax-gen/src/ast.rs"
SGC = "C28 C29 C30 C39 C40 C41 C42 C43"
KWSORT = """  let keywords = {
    let mut xs: Vec<_> = tokens
      .keywords
      .into_iter()
      .map(|(ug_tok, tok)| (grammar[ug_tok].name.as_str(), tok))
      .collect();
    xs.sort_unstable_by_key(|&(name, _)| (Reverse(name.len()), name));
    xs
  };
"""
PUSORT = KWSORT.replace("keywords", "punctuation")
ref("sgk-helper-sort", SGC, (SGK, KWSORT, "  let keywords = sorted(&grammar, tokens.keywords);\n"), (SGK, PUSORT, "  let punctuation = sorted(&grammar, tokens.punctuation);\n"),
    (SGK, "#[allow(clippy::too_many_lines)]", """fn sorted(
  grammar: &ungrammar::Grammar,
  map: fast_hash::FxHashMap<ungrammar::Token, crate::token::Token>,
) -> Vec<(&str, crate::token::Token)> {
  let mut xs: Vec<_> =
    map.into_iter().map(|(ug_tok, tok)| (grammar[ug_tok].name.as_str(), tok)).collect();
  xs.sort_unstable_by_key(|&(name, _)| (Reverse(name.len()), name));
  xs
}

#[allow(clippy::too_many_lines)]"""))
ref("sgk-sort-by", SGC, (SGK, KWSORT, KWSORT.replace("xs.sort_unstable_by_key(|&(name, _)| (Reverse(name.len()), name));", "xs.sort_unstable_by(|(a, _), (b, _)| b.len().cmp(&a.len()).then_with(|| a.cmp(b)));")),
    (SGK, PUSORT, PUSORT.replace("xs.sort_unstable_by_key(|&(name, _)| (Reverse(name.len()), name));", "xs.sort_by(|(a, _), (b, _)| b.len().cmp(&a.len()).then(a.cmp(b)));")),
    (SGK, "use std::cmp::Reverse;\n", ""))
ref("sgk-sort-stable", SGC, (SGK, PUSORT, PUSORT.replace("sort_unstable_by_key", "sort_by_key")))
ref("sgk-sort-two-steps", SGC, (SGK, PUSORT, PUSORT.replace("xs.sort_unstable_by_key(|&(name, _)| (Reverse(name.len()), name));", "xs.sort_by(|a, b| a.0.cmp(b.0));\n    xs.sort_by_key(|&(name, _)| Reverse(name.len()));")))
ref("sgk-for-collect", SGC, (SGK, PUSORT, """  let mut punctuation = Vec::new();
  for (ug_tok, tok) in tokens.punctuation {
    punctuation.push((grammar[ug_tok].name.as_str(), tok));
  }
  punctuation.sort_unstable_by_key(|&(name, _)| (Reverse(name.len()), name));
"""))
ref("sgk-collect-arms", SGC, (SGK, "    let kind = tok.name_ident();\n    quote! { #bs => Self::#kind }\n  });", "    let kind = tok.name_ident();\n    quote! { #bs => Self::#kind }\n  }).collect::<Vec<_>>();"))
ref("sgk-arm-helper", SGC, (SGK, """    let bs = proc_macro2::Literal::byte_string(name.as_bytes());
    let kind = tok.name_ident();
    quote! { #bs => Self::#kind }
""", "    keyword_arm(name, tok)\n"), (SGK, "#[allow(clippy::too_many_lines)]", """fn keyword_arm(name: &str, tok: &crate::token::Token) -> proc_macro2::TokenStream {
  let bs = proc_macro2::Literal::byte_string(name.as_bytes());
  let kind = tok.name_ident();
  quote! { #bs => Self::#kind }
}

#[allow(clippy::too_many_lines)]"""))
ref("sgk-desc-match", SGC, (SGK, "      let desc = tok.desc.clone().unwrap_or_else(|| format!(\"`{name}`\"));\n", "      let desc = match &tok.desc {\n        Some(d) => d.clone(),\n        None => format!(\"`{name}`\"),\n      };\n"))
ref("sgk-special-map", SGC, (SGK, "    .chain(special.iter().filter_map(|tok| {\n      let kind = tok.name_ident();\n      let desc = tok.desc.as_ref()?;\n      Some(quote! { Self::#kind => #desc })\n    }));", "    .chain(special.iter().filter_map(|tok| {\n      tok.desc.as_ref().map(|desc| {\n        let kind = tok.name_ident();\n        quote! { Self::#kind => #desc }\n      })\n    }));"))
ref("sgk-trivia-for", SGC, (SGK, "  let self_trivia = trivia.iter().map(|id| {\n    quote! { Self::#id }\n  });\n", "  let mut self_trivia = Vec::with_capacity(trivia.len());\n  for id in trivia {\n    self_trivia.push(quote! { Self::#id });\n  }\n"))
ref("sgk-kinds-extend", SGC, (SGK, """  let syntax_kinds: Vec<_> = trivia
    .iter()
    .cloned()
    .chain(keywords.iter().chain(punctuation.iter()).map(|(_, tok)| tok.name_ident()))
    .chain(special.iter().map(crate::token::Token::name_ident))
    .chain(node_syntax_kinds)
    .collect();
""", """  let mut syntax_kinds: Vec<proc_macro2::Ident> = trivia.to_vec();
  syntax_kinds.extend(keywords.iter().map(|(_, tok)| tok.name_ident()));
  syntax_kinds.extend(punctuation.iter().map(|(_, tok)| tok.name_ident()));
  syntax_kinds.extend(special.iter().map(crate::token::Token::name_ident));
  syntax_kinds.extend(node_syntax_kinds);
"""))
ref("sgk-kinds-for", SGC, (SGK, """  let syntax_kinds: Vec<_> = trivia
    .iter()
    .cloned()
    .chain(keywords.iter().chain(punctuation.iter()).map(|(_, tok)| tok.name_ident()))
    .chain(special.iter().map(crate::token::Token::name_ident))
    .chain(node_syntax_kinds)
    .collect();
""", """  let mut syntax_kinds: Vec<proc_macro2::Ident> = Vec::new();
  for t in trivia {
    syntax_kinds.push(t.clone());
  }
  for (_, tok) in keywords.iter().chain(punctuation.iter()) {
    syntax_kinds.push(tok.name_ident());
  }
  for tok in &special {
    syntax_kinds.push(tok.name_ident());
  }
  for n in node_syntax_kinds {
    syntax_kinds.push(n);
  }
"""))
ref("sgk-last-expect", SGC, (SGK, "syntax_kinds.last().unwrap();", "&syntax_kinds[syntax_kinds.len() - 1];"))
ref("sgk-special-byval", SGC, (SGK, "    let mut xs: Vec<_> = tokens.special.into_values().collect();\n    xs.sort_unstable();\n    xs\n", "    let mut xs: Vec<_> = tokens.special.into_iter().map(|(_, tok)| tok).collect();\n    xs.sort_by(|a, b| a.name.cmp(&b.name));\n    xs\n"))
ref("sgk-special-key", SGC, (SGK, "    xs.sort_unstable();\n", "    xs.sort_unstable_by(Ord::cmp);\n"))
ref("sgk-order", SGC, (SGK, "keywords.iter().chain(punctuation.iter()).map(|(_, tok)| tok.name_ident())", "punctuation.iter().chain(&keywords).map(|(_, tok)| tok.name_ident())"))
ref("sgk-assert-form", SGC, (SGK, "        assert!(raw.0 <= SyntaxKind::#last_syntax_kind as u16);\n", "        assert!(!(raw.0 > SyntaxKind::#last_syntax_kind as u16), \"raw kind out of range\");\n"))
ref("sgk-keyword-form", SGC, (SGK, """        let ret = match bs {
          #(#keyword_arms ,)*
          _ => return None,
        };
        Some(ret)
""", """        Some(match bs {
          #(#keyword_arms ,)*
          _ => return None,
        })
"""))
ref("sgk-keyword-some", SGC, (SGK, """        let ret = match bs {
          #(#keyword_arms ,)*
          _ => return None,
        };
        Some(ret)
""", """        match bs {
          #(#keyword_arms ,)*
          _ => None,
        }
"""), (SGK, "quote! { #bs => Self::#kind }", "quote! { #bs => Some(Self::#kind) }"))
ref("sgk-inline-quote", SGC, (SGK, "  let self_trivia = trivia.iter().map(|id| {\n    quote! { Self::#id }\n  });\n", ""), (SGK, "matches!(*self, #(#self_trivia)|*)", "matches!(*self, #(Self::#trivia)|*)"))
ref("sgt-entry", SGC, (SGT, "          assert!(punctuation.insert(token, tok).is_none());", "          let old = punctuation.insert(token, tok);\n          assert!(old.is_none(), \"duplicate token\");"))
ref("sgt-get-chain", SGC, (SGT, """    None
      .or_else(|| self.punctuation.get(&token))
      .or_else(|| self.keywords.get(&token))
      .or_else(|| self.special.get(&token))
      .unwrap_or_else(|| panic!("{token:?} does not have a name"))
""", """    self
      .punctuation
      .get(&token)
      .or_else(|| self.keywords.get(&token))
      .or_else(|| self.special.get(&token))
      .expect("token should have a name")
"""))
ref("sgt-get-iflet", SGC, (SGT, """    None
      .or_else(|| self.punctuation.get(&token))
      .or_else(|| self.keywords.get(&token))
      .or_else(|| self.special.get(&token))
      .unwrap_or_else(|| panic!("{token:?} does not have a name"))
""", """    if let Some(t) = self.special.get(&token) {
      return t;
    }
    match self.keywords.get(&token) {
      Some(t) => t,
      None => &self.punctuation[&token],
    }
"""))
ref("sgt-tuple", SGC, (SGT, """      let kind: Kind;
      let mut name: String;
      let mut desc = None::<String>;
      if let Some(&d) = special_desc.get(orig_name) {
        kind = Kind::Special;
        name = orig_name.to_owned();
        desc = Some(d.to_owned());
      } else if orig_name.chars().any(|c| c.is_ascii_alphabetic()) {
        kind = Kind::Keyword;
        name = identifier_case::snake_to_pascal(orig_name);
        name.push_str("Kw");
      } else {
        kind = Kind::Punctuation;
        name = String::new();
        for c in orig_name.chars() {
          name.push_str(char_name::get(c));
        }
      }
""", """      let (kind, name, desc) = if let Some(&d) = special_desc.get(orig_name) {
        (Kind::Special, orig_name.to_owned(), Some(d.to_owned()))
      } else if orig_name.chars().any(|c| c.is_ascii_alphabetic()) {
        (Kind::Keyword, format!("{}Kw", identifier_case::snake_to_pascal(orig_name)), None)
      } else {
        (Kind::Punctuation, orig_name.chars().map(char_name::get).collect::<String>(), None)
      };
"""))
ref("sgt-map-pick", SGC, (SGT, """      match kind {
        Kind::Punctuation => {
          assert!(punctuation.insert(token, tok).is_none());
        }
        Kind::Keyword => {
          assert!(keywords.insert(token, tok).is_none());
        }
        Kind::Special => {
          assert!(special.insert(token, tok).is_none());
        }
      }
""", """      let map = match kind {
        Kind::Punctuation => &mut punctuation,
        Kind::Keyword => &mut keywords,
        Kind::Special => &mut special,
      };
      assert!(map.insert(token, tok).is_none());
"""))
ref("sgt-classify", SGC, (SGT, "orig_name.chars().any(|c| c.is_ascii_alphabetic())", "orig_name.contains(|c: char| c.is_ascii_alphabetic())"))
ref("sgt-bytes", SGC, (SGT, "orig_name.chars().any(|c| c.is_ascii_alphabetic())", "orig_name.bytes().any(|b| b.is_ascii_alphabetic())"))
ref("sgt-helper", SGC, (SGT, """        name = String::new();
        for c in orig_name.chars() {
          name.push_str(char_name::get(c));
        }
""", "        name = punct_name(orig_name);\n"), (SGT, "pub(crate) fn ident(s", """fn punct_name(s: &str) -> String {
  let mut ret = String::new();
  for c in s.chars() {
    ret.push_str(char_name::get(c));
  }
  ret
}

pub(crate) fn ident(s"""))
ref("sga-map", SGC, (SGA, """  let mut defs = Vec::with_capacity(rules.len());
  let mut casts = Vec::with_capacity(rules.len());
  let mut to_strs = Vec::with_capacity(rules.len());
  for rule in rules {
    let tok = unwrap_token(rule);
    let name = cx.tokens.get(tok).name_ident();
    let text = cx.grammar[tok].name.as_str();
    defs.push(quote! { #name });
    casts.push(quote! { SK::#name => #name_kind::#name });
    to_strs.push(quote! { Self::#name => #text });
  }
""", """  let defs = rules.iter().map(|rule| cx.tokens.get(unwrap_token(rule)).name_ident());
  let casts = rules.iter().map(|rule| {
    let name = cx.tokens.get(unwrap_token(rule)).name_ident();
    quote! { SK::#name => #name_kind::#name }
  });
  let to_strs = rules.iter().map(|rule| {
    let tok = unwrap_token(rule);
    let name = cx.tokens.get(tok).name_ident();
    let text = cx.grammar[tok].name.as_str();
    quote! { Self::#name => #text }
  });
"""))
ref("sga-match", SGC, (SGA, """  match rules.first().unwrap() {
    Rule::Node(_) => get_nodes(cx, &name, rules),
    Rule::Token(_) => {
      let ts = get_tokens(cx, &name, rules);
      token_alts.insert(name);
      ts
    }
    bad => panic!("bad alt rule {bad:?}"),
  }
""", """  match &rules[0] {
    Rule::Token(_) => {
      token_alts.insert(name.clone());
      get_tokens(cx, &name, rules)
    }
    Rule::Node(_) => get_nodes(cx, &name, rules),
    bad => unreachable!("bad alt rule {bad:?}"),
  }
"""))
ref("sga-foreach", SGC, (SGA, "    let name = ident(&cx.grammar[unwrap_node(rule)].name);\n    defs.push(quote! { #name(#name) });\n    kinds.push(quote! { SK::#name });\n", "    let node = unwrap_node(rule);\n    let data = &cx.grammar[node];\n    let name = ident(data.name.as_str());\n    kinds.push(quote! { SK::#name });\n    defs.push(quote! { #name(#name) });\n"))
ref("sga-names", SGC, (SGA, """  let mut defs = Vec::with_capacity(rules.len());
  let mut kinds = Vec::with_capacity(rules.len());
  let mut casts = Vec::with_capacity(rules.len());
  let mut syntaxes = Vec::with_capacity(rules.len());
  for rule in rules {
    let name = ident(&cx.grammar[unwrap_node(rule)].name);
    defs.push(quote! { #name(#name) });
    kinds.push(quote! { SK::#name });
    casts.push(quote! { SK::#name => Self::#name(#name(node)) });
    syntaxes.push(quote! { Self::#name(x) => x.syntax() });
  }
""", """  let names: Vec<Ident> =
    rules.iter().map(|rule| ident(&cx.grammar[unwrap_node(rule)].name)).collect();
  let defs = names.iter().map(|name| quote! { #name(#name) });
  let kinds = names.iter().map(|name| quote! { SK::#name });
  let casts = names.iter().map(|name| quote! { SK::#name => Self::#name(#name(node)) });
  let syntaxes = names.iter().map(|name| quote! { Self::#name(x) => x.syntax() });
"""))
ref("sgq-entry", SGC, (SGQ, "  let entry = counts.entry(key).or_default();\n  let ret = *entry;\n  *entry += 1;\n  ret\n", "  let entry = counts.entry(key).or_insert(0);\n  *entry += 1;\n  *entry - 1\n"))
ref("sgq-get-insert", SGC, (SGQ, "  let entry = counts.entry(key).or_default();\n  let ret = *entry;\n  *entry += 1;\n  ret\n", "  let ret = counts.get(&key).copied().unwrap_or(0);\n  counts.insert(key, ret + 1);\n  ret\n"))
ref("sgq-replace", SGC, (SGQ, "  let ret = *entry;\n  *entry += 1;\n  ret\n", "  let next = *entry + 1;\n  std::mem::replace(entry, next)\n"))
ref("sgq-match-idx", SGC, (SGQ, """      body = if idx == 0 {
        quote! { #base_body.next() }
      } else {
        quote! { #base_body.nth(#idx) }
      };
""", """      body = match idx {
        0 => quote! { #base_body.next() },
        n => quote! { #base_body.nth(#n) },
      };
"""))
ref("sgq-nth-always", SGC, (SGQ, """      body = if idx == 0 {
        quote! { #base_body.next() }
      } else {
        quote! { #base_body.nth(#idx) }
      };
""", """      body = quote! { #base_body.nth(#idx) };
"""))
ref("sgq-fields-for", SGC, (SGQ, "  let fields = rules.iter().map(|rule| field(cx, &mut counts, rule));\n", "  let mut fields = Vec::with_capacity(rules.len());\n  for rule in rules {\n    fields.push(field(cx, &mut counts, rule));\n  }\n"))
ref("sgq-fields-vec", SGC, (SGQ, "  let fields = rules.iter().map(|rule| field(cx, &mut counts, rule));\n", "  let fields: Vec<_> = rules.iter().map(|rule| field(cx, &mut counts, rule)).collect();\n"))
ref("sgq-finish-helper", SGC, (SGQ, """  let idx = get_idx(counts, name);
  let ret_ty: TokenStream;
  let body: TokenStream;
  match modifier {
    Modifier::Repeated => {
      ret_ty = quote! { impl Iterator<Item = #base_ty> + use<> };
      body = base_body;
    }
    Modifier::Optional | Modifier::Regular => {
      ret_ty = quote! { Option<#base_ty> };
      body = if idx == 0 {
        quote! { #base_body.next() }
      } else {
        quote! { #base_body.nth(#idx) }
      };
    }
  };
""", """  let idx = get_idx(counts, name);
  let (ret_ty, body) = finish(&modifier, idx, &base_ty, base_body);
"""), (SGQ, "fn field<'cx>(", """fn finish(
  modifier: &Modifier,
  idx: usize,
  base_ty: &Ident,
  base_body: TokenStream,
) -> (TokenStream, TokenStream) {
  match modifier {
    Modifier::Repeated => (quote! { impl Iterator<Item = #base_ty> + use<> }, base_body),
    Modifier::Optional | Modifier::Regular => {
      let body =
        if idx == 0 { quote! { #base_body.next() } } else { quote! { #base_body.nth(#idx) } };
      (quote! { Option<#base_ty> }, body)
    }
  }
}

fn field<'cx>("""))
ref("sgq-name-if", SGC, (SGQ, """    None => {
      let to_snake = pascal_to_snake(name);
      match modifier {
        Modifier::Repeated => format_ident!("{to_snake}s"),
        Modifier::Optional | Modifier::Regular => ident(&to_snake),
      }
    }
""", """    None => {
      let mut to_snake = pascal_to_snake(name);
      if let Modifier::Repeated = modifier {
        to_snake.push('s');
      }
      ident(&to_snake)
    }
"""))
ref("sgq-breakval", SGC, (SGQ, "  let name: &str;\n  let base_ty: Ident;\n  let base_body: TokenStream;\n  loop {", "  let (name, base_ty, base_body) = loop {"),
    (SGQ, """        name = cx.grammar[*node].name.as_str();
        base_ty = ident(name);
        base_body = if""", """        let name = cx.grammar[*node].name.as_str();
        let base_ty = ident(name);
        let base_body = if"""),
    (SGQ, """          quote! { node_children(self) }
        };
        break;""", """          quote! { node_children(self) }
        };
        break (name, base_ty, base_body);"""),
    (SGQ, """        name = cx.tokens.get(*tok).name.as_str();
        base_ty = ident("SyntaxToken");
        let name_ident = ident(name);
        base_body = quote! { tokens(self, SK::#name_ident) };
        break;""", """        let name = cx.tokens.get(*tok).name.as_str();
        let name_ident = ident(name);
        break (name, ident("SyntaxToken"), quote! { tokens(self, SK::#name_ident) });"""),
    (SGQ, "      Rule::Seq(_) | Rule::Alt(_) => panic!(\"bad field rule: {rule:?}\"),\n    }\n  }\n", "      Rule::Seq(_) | Rule::Alt(_) => panic!(\"bad field rule: {rule:?}\"),\n    }\n  };\n"))
ref("sgq-rec", SGC, (SGQ, "  if name == \"Root\" {", "  let is_root = name == \"Root\";\n  if is_root {"))
ref("sgs-filter", SGC, (SGS, "        .filter_map(rowan::NodeOrToken::into_token)\n        .filter(move |tok| tok.kind() == kind)\n", "        .filter_map(|x| x.into_token().filter(|tok| tok.kind() == kind))\n"))
ref("sgs-move", SGC, (SGS, "        .filter(move |tok| tok.kind() == kind)\n", "        .filter(move |t| kind == t.kind())\n"))
ref("sgl-if-let", SGC, (SG, """    let rules = match &data.rule {
      Rule::Alt(rules) => rules.as_slice(),
      _ => continue,
    };
    types""", """    let Rule::Alt(rules) = &data.rule else { continue };
    types"""))
ref("sgl-filter", SGC, (SG, """    let rules = match &data.rule {
      Rule::Alt(rules) => rules.as_slice(),
      _ => continue,
    };
    types.push(alt::get(&cx, &mut token_alts, token::ident(&data.name), rules));
""", """    if let Rule::Alt(rules) = &data.rule {
      let name = token::ident(&data.name);
      let ts = alt::get(&cx, &mut token_alts, name, rules);
      types.push(ts);
    }
"""))
ref("sgl-trivia-for", SGC, (SG, "  let trivia: Vec<_> = opts.trivia.iter().map(|&x| token::ident(x)).collect();\n", "  let mut trivia = Vec::new();\n  for &x in opts.trivia {\n    trivia.push(token::ident(x));\n  }\n"))
ref("sgl-push-order", SGC, (SG, "    node_syntax_kinds.push(name.clone());\n    types.push(seq::get(&cx, &name, rules));\n", "    types.push(seq::get(&cx, &name, rules));\n    node_syntax_kinds.push(name);\n"))
ref("sgl-fn", SGC, (SG, """    let rules = match &data.rule {
      Rule::Alt(_) => continue,
      Rule::Seq(rules) => rules.as_slice(),
      rule => std::slice::from_ref(rule),
    };
""", """    if matches!(data.rule, Rule::Alt(_)) {
      continue;
    }
    let rules = parts(&data.rule);
"""), (SG, "/// Generates Rust code from the `grammar`", """fn parts(rule: &Rule) -> &[Rule] {
  match rule {
    Rule::Seq(rules) => rules.as_slice(),
    rule => std::slice::from_ref(rule),
  }
}

/// Generates Rust code from the `grammar`"""))
# ---- C25: what only debug builds check, and the same checking in other words
AW = "crates/always/src/lib.rs"
ref("c25-debug-loop", "C23 C24 C25 C41", (TS, """    while let Some(action) = self.actions.pop() {
      match action {""", """    while let Some(action) = self.actions.pop() {
      debug_assert!(self.actions.iter().filter(|a| matches!(a, Action::End(_))).count() <= level);
      match action {"""))
ref("c25-debug-check", "C04 C05 C25", (EP, """  fn eat_trivia(&mut self""", """  #[cfg(debug_assertions)]
  fn check(&self) {
    assert!(self.tok_idx <= self.tokens.len());
  }

  #[cfg(not(debug_assertions))]
  fn check(&self) {}

  fn eat_trivia(&mut self"""), (EP, """    self.events.push(Some(Event::Error(error)));""", """    self.check();
    self.events.push(Some(Event::Error(error)));"""))
ref("c25-macro-if", "C23 C24 C25", (AW, """    if cfg!(debug_assertions) {
      assert!(cond, $fmt $($arg)*);
    }
    if !cond {
      $crate::__log_error!($fmt $($arg)*);
    }
    cond""", """    debug_assert!(cond, $fmt $($arg)*);
    if cond {
      true
    } else {
      $crate::__log_error!($fmt $($arg)*);
      false
    }"""))
ref("c25-macro-match", "C23 C24 C25", (AW, """    let cond = $cond;
    if cfg!(debug_assertions) {
      assert!(cond, $fmt $($arg)*);
    }
    if !cond {
      $crate::__log_error!($fmt $($arg)*);
    }
    cond""", """    match $cond {
      true => true,
      false => {
        if cfg!(debug_assertions) {
          panic!($fmt $($arg)*);
        } else {
          $crate::__log_error!($fmt $($arg)*);
        }
        false
      }
    }"""))
ref("c25-paths-assert", "C14 C25", (PA if isinstance(PA, str) else "crates/paths/src/lib.rs", """    debug_assert!(path.is_absolute());""", """    if cfg!(debug_assertions) {
      assert!(path.is_absolute(), "not absolute");
    }"""))
ref("c25-assert-set", "C15 C25", ("crates/paths/src/lib.rs", """      self.path_to_id.insert(path.to_owned(), id);""", """      let old = self.path_to_id.insert(path.to_owned(), id);
      debug_assert!(old.is_none());"""))

# ================================================================ second round: larger edits
EPX = EPC + " C25"
ref("r2-ep-eat-option", EPX, (EP, """    if self.at(kind) {
      Some(self.bump())
    } else {
      self.error(E::expected(kind));
      None
    }
""", """    let tok = self.at(kind).then(|| self.bump());
    if tok.is_none() {
      self.error(E::expected(kind));
    }
    tok
"""))
ref("r2-ep-at-peek", EPX, (EP, "    self.at_n(0, kind)\n", "    self.peek().is_some_and(|tok| tok.kind == kind)\n"))
ref("r2-ep-peekn-iter", EPX, (EP, """    let mut ret = self.peek();
    let old_tok_idx = self.tok_idx;
    for _ in 0..n {
      self.tok_idx += 1;
      ret = self.peek();
    }
    self.tok_idx = old_tok_idx;
    ret
""", """    let _ = self.peek();
    self.tokens.iter().skip(self.tok_idx).filter(|tok| !tok.kind.is_trivia()).nth(n).copied()
"""))
ref("r2-ep-peekn-early", EPX, (EP, """    for _ in 0..n {
      self.tok_idx += 1;
      ret = self.peek();
    }
""", """    for _ in 0..n {
      if ret.is_none() {
        break;
      }
      self.tok_idx += 1;
      ret = self.peek();
    }
"""))
ref("r2-ep-empty-late", EPX,
    (EP, "    let is_empty = self.consumed == en.consumed;\n    Exited { ev_idx: en.ev_idx, consumed: en.consumed, is_empty }", "    Exited { ev_idx: en.ev_idx, consumed: en.consumed, end: self.consumed }"),
    (EP, "  is_empty: bool,\n}", "  /// How many tokens were consumed up to the end of this construct.\n  end: usize,\n}"),
    (EP, "    self.is_empty\n", "    self.end == self.consumed\n"))
ref("r2-ep-enter-at", EPX, (EP, """    let ev_idx = self.events.len();
    self.events.push(None);
    let bomb = DropBomb::new("Entered markers must be exited");
    Entered { bomb, ev_idx, consumed: self.consumed, child: None }
""", """    self.enter_(self.consumed, None)
"""), (EP, "  /// Abandons parsing a syntax construct.\n", """  fn enter_(&mut self, consumed: usize, child: Option<usize>) -> Entered {
    let ev_idx = self.events.len();
    self.events.push(None);
    Entered { bomb: DropBomb::new("Entered markers must be exited"), ev_idx, consumed, child }
  }

  /// Abandons parsing a syntax construct.
"""), (EP, """    let mut ret = self.enter();
    // what was consumed in the child was consumed in the parent.
    ret.consumed = ex.consumed;
    ret.child = Some(ex.ev_idx);
""", """    // what was consumed in the child was consumed in the parent.
    let ret = self.enter_(ex.consumed, Some(ex.ev_idx));
"""))
ref("r2-ep-precede-late", EPX, (EP, """    let mut ret = self.enter();
    // what was consumed in the child was consumed in the parent.
    ret.consumed = ex.consumed;
    ret.child = Some(ex.ev_idx);
    #[allow(clippy::match_on_vec_items)]
    match self.events[ex.ev_idx] {
      Some(Event::Enter(_, ref mut parent)) => {
        assert!(parent.is_none());
        *parent = Some(ret.ev_idx);
      }
      ref ev => unreachable!("{:?} preceded {:?}, not Enter", ex, ev),
    }
    ret
""", """    let at = self.events.len();
    if let Some(Event::Enter(_, parent)) = &mut self.events[ex.ev_idx] {
      let old = parent.replace(at);
      assert!(old.is_none());
    } else {
      unreachable!("{:?} preceded {:?}, not Enter", ex, self.events[ex.ev_idx]);
    }
    let mut ret = self.enter();
    ret.child = Some(ex.ev_idx);
    ret.consumed = ex.consumed;
    ret
"""))
ref("r2-ep-abandon-chain", EPX, (EP, """    if let Some(child) = en.child {
      if let Some(Event::Enter(_, parent)) = &mut self.events[child] {
        *parent = None;
      }
    }
""", """    let Some(child) = en.child else { return };
    match self.events[child].as_mut() {
      Some(Event::Enter(_, parent)) => {
        parent.take();
      }
      _ => {}
    }
"""))
ref("r2-ep-finish-events", EPX, (EP, """    for idx in 0..self.events.len() {
      let Some(ev) = self.events[idx].take() else { continue };
""", """    let mut events = std::mem::take(&mut self.events);
    for idx in 0..events.len() {
      let Some(ev) = events[idx].take() else { continue };
"""), (EP, "            match self.events[p].take() {\n", "            match events[p].take() {\n"))
ref("r2-ep-finish-collect", EPX, (EP, """          assert!(kinds.is_empty());
          if fst.is_none() {
            fst = Some(kind);
          }
          kinds.push(kind);
          while let Some(p) = parent {
            match self.events[p].take() {
              Some(Event::Enter(kind, new_parent)) => {
                kinds.push(kind);
                parent = new_parent;
              }
              // abandoned precede
              None => break,
              ev => unreachable!("{:?} was {:?}, not Enter", parent, ev),
            }
          }
          for kind in kinds.drain(..).rev() {
""", """          fst.get_or_insert(kind);
          let mut kinds = vec![kind];
          self.collect_parents(&mut kinds, parent);
          for kind in kinds.into_iter().rev() {
"""), (EP, "        Event::Enter(kind, mut parent) => {", "        Event::Enter(kind, parent) => {"),
    (EP, "    let mut kinds = Vec::new();\n", ""),
    (EP, "  /// Finishes parsing, and writes", """  /// Collects the kinds of what was made to precede something.
  fn collect_parents(&mut self, kinds: &mut Vec<K>, mut parent: Option<usize>) {
    while let Some(idx) = parent {
      match self.events[idx].take() {
        Some(Event::Enter(kind, next)) => {
          kinds.push(kind);
          parent = next;
        }
        None => return,
        ev => unreachable!("{:?} was {:?}, not Enter", parent, ev),
      }
    }
  }

  /// Finishes parsing, and writes"""))
ref("r2-ep-finish-step", EPX, (EP, """          for kind in kinds.drain(..).rev() {
            // keep as much trivia as possible outside of what we're entering.
            if levels != 0 {
              self.eat_trivia(&mut to_enter, sink);
            }
            to_enter.push(kind);
            levels += 1;
          }
""", """          while let Some(kind) = kinds.pop() {
            // keep as much trivia as possible outside of what we're entering.
            if levels > 0 {
              self.eat_trivia(&mut to_enter, sink);
            }
            levels += 1;
            to_enter.push(kind);
          }
"""), (EP, """          if to_enter.pop().is_none() {
            sink.exit();
          }
          levels -= 1;
""", """          levels -= 1;
          match to_enter.pop() {
            Some(_) => {}
            None => sink.exit(),
          }
"""))
ref("r2-ep-finish-top", EPX, (EP, """    assert_eq!(levels, 0);
    // give an empty node for the empty parse
    if self.tok_idx == 0 {
      if let Some(fst) = fst {
        sink.enter(fst);
        sink.exit();
      }
    }
""", """    assert!(levels == 0, "unbalanced");
    // give an empty node for the empty parse
    if self.tok_idx != 0 {
      return;
    }
    let Some(kind) = fst else { return };
    sink.enter(kind);
    sink.exit();
"""))
ref("r2-ep-trivia-count", EPX, (EP, """    while let Some(&tok) = self.tokens.get(self.tok_idx) {
      if !tok.kind.is_trivia() {
        break;
      }
      self.token(to_enter, sink, tok);
    }
""", """    let n = self.tokens.iter().skip(self.tok_idx).take_while(|tok| tok.kind.is_trivia()).count();
    for _ in 0..n {
      let tok = self.tokens[self.tok_idx];
      self.token(to_enter, sink, tok);
    }
"""))
ref("r2-ep-trivia-slice", EPX, (EP, """    while let Some(&tok) = self.tokens.get(self.tok_idx) {
      if !tok.kind.is_trivia() {
        break;
      }
      self.token(to_enter, sink, tok);
    }
""", """    let tokens = self.tokens;
    for &tok in &tokens[self.tok_idx..] {
      if !tok.kind.is_trivia() {
        return;
      }
      self.token(to_enter, sink, tok);
    }
"""))
ref("r2-ep-tombstone", EPX,
    (EP, "  events: Vec<Option<Event<K, E>>>,", "  events: Vec<Event<K, E>>,"),
    (EP, "    self.events.push(None);\n", "    self.events.push(Event::Tombstone);\n"),
    (EP, "    assert!(self.events[en.ev_idx].is_none());\n", "    assert!(matches!(self.events[en.ev_idx], Event::Tombstone));\n"),
    (EP, "      if let Some(Event::Enter(_, parent)) = &mut self.events[child] {\n", "      if let Event::Enter(_, parent) = &mut self.events[child] {\n"),
    (EP, "    assert!(ev.is_none());\n    *ev = Some(Event::Enter(kind, None));\n    self.events.push(Some(Event::Exit));\n", "    assert!(matches!(ev, Event::Tombstone));\n    *ev = Event::Enter(kind, None);\n    self.events.push(Event::Exit);\n"),
    (EP, "      Some(Event::Enter(_, ref mut parent)) => {\n", "      Event::Enter(_, ref mut parent) => {\n"),
    (EP, "any(|ev| matches!(*ev, Some(Event::Error(..))));", "any(|ev| matches!(*ev, Event::Error(..)));"),
    (EP, "    self.events.push(Some(Event::Token));\n", "    self.events.push(Event::Token);\n"),
    (EP, "    self.events.push(Some(Event::Error(error)));\n", "    self.events.push(Event::Error(error));\n"),
    (EP, "      let Some(ev) = self.events[idx].take() else { continue };\n      match ev {\n", "      match std::mem::replace(&mut self.events[idx], Event::Tombstone) {\n        Event::Tombstone => {}\n"),
    (EP, "            match self.events[p].take() {\n              Some(Event::Enter(kind, new_parent)) => {", "            match std::mem::replace(&mut self.events[p], Event::Tombstone) {\n              Event::Enter(kind, new_parent) => {"),
    (EP, "              None => break,\n", "              Event::Tombstone => break,\n"),
    (EP, "enum Event<K, E> {\n  Enter", "enum Event<K, E> {\n  Tombstone,\n  Enter"),
    (EP, "      Event::Token => f.debug_tuple(\"Token\").finish(),\n", "      Event::Token => f.debug_tuple(\"Token\").finish(),\n      Event::Tombstone => f.debug_tuple(\"Tombstone\").finish(),\n"))
ref("r2-ep-cursor", EPX,
    (EP, "  tokens: &'a [Token<'a, K>],\n  tok_idx: usize,\n", "  cursor: Cursor<'a, K>,\n"),
    (EP, "/// A event-based parser.\n", "#[derive(Debug)]\nstruct Cursor<'a, K> {\n  tokens: &'a [Token<'a, K>],\n  idx: usize,\n}\n\nimpl<'a, K: Copy> Cursor<'a, K> {\n  fn get(&self) -> Option<Token<'a, K>> {\n    self.tokens.get(self.idx).copied()\n  }\n}\n\n/// A event-based parser.\n"),
    (EP, "    Self { tokens, tok_idx: 0, consumed: 0, events: Vec::new() }", "    Self { cursor: Cursor { tokens, idx: 0 }, consumed: 0, events: Vec::new() }"),
    (EP, "    Save { tok_idx: self.tok_idx, consumed", "    Save { tok_idx: self.cursor.idx, consumed"),
    (EP, "      self.tok_idx = save.tok_idx;\n", "      self.cursor.idx = save.tok_idx;\n"),
    (EP, """    while let Some(&tok) = self.tokens.get(self.tok_idx) {
      if tok.kind.is_trivia() {
        self.tok_idx += 1;
""", """    while let Some(tok) = self.cursor.get() {
      if tok.kind.is_trivia() {
        self.cursor.idx += 1;
"""),
    (EP, "    let old_tok_idx = self.tok_idx;\n    for _ in 0..n {\n      self.tok_idx += 1;\n", "    let old_tok_idx = self.cursor.idx;\n    for _ in 0..n {\n      self.cursor.idx += 1;\n"),
    (EP, "    self.tok_idx = old_tok_idx;\n", "    self.cursor.idx = old_tok_idx;\n"),
    (EP, "Event::Token));\n    self.tok_idx += 1;\n", "Event::Token));\n    self.cursor.idx += 1;\n"),
    (EP, "    while let Some(&tok) = self.tokens.get(self.tok_idx) {\n      if !tok", "    while let Some(tok) = self.cursor.get() {\n      if !tok"),
    (EP, "    sink.token(tok);\n    self.tok_idx += 1;\n", "    sink.token(tok);\n    self.cursor.idx += 1;\n"),
    (EP, "    self.tok_idx = 0;\n", "    self.cursor.idx = 0;\n"),
    (EP, "self.tokens[self.tok_idx]);", "self.cursor.tokens[self.cursor.idx]);"),
    (EP, "    if self.tok_idx == 0 {\n", "    if self.cursor.idx == 0 {\n"))

TSX = "C23 C24 C25 C39 C40 C41"
ref("r2-ts-visit-fns", TSX, (TS, """          level = level.checked_sub(1).unwrap_or_else(|| {
            always!(false, "`End` should have a matching `Start`");
            0
          });
          always!(cur.remove(&value), "should only `End` when in `cur`");
          always!(ret.done.insert(value.clone()), "should not `End` if already done");
          visitor.exit(value, level);
""", """          finish_one(visitor, &mut cur, &mut ret.done, &mut level, value);
"""), (TS, "#[derive(Debug)]\nenum Action<T> {", """fn finish_one<V>(visitor: &mut V, cur: &mut V::Set, done: &mut V::Set, level: &mut usize, value: V::Elem)
where
  V: Visitor,
  V::Elem: Clone,
  V::Set: Set<Elem = V::Elem>,
{
  match level.checked_sub(1) {
    Some(l) => *level = l,
    None => {
      always!(false, "`End` should have a matching `Start`");
      *level = 0;
    }
  }
  let removed = cur.remove(&value);
  always!(removed, "should only `End` when in `cur`");
  let inserted = done.insert(value.clone());
  always!(inserted, "should not `End` if already done");
  visitor.exit(value, *level);
}

#[derive(Debug)]
enum Action<T> {"""))
ref("r2-ts-let-else", TSX, (TS, """          if ret.done.contains(&value) {
            continue;
          }
          let Some(data) = visitor.enter(value.clone()) else { continue };
          if !cur.insert(value.clone()) {
            if ret.cycle.is_none() {
              ret.cycle = Some(value);
            }
            continue;
          }
          self.actions.push(Action::End(value.clone()));
          level += 1;
          visitor.process(value, data, &mut self);
""", """          if !ret.done.contains(&value) {
            if let Some(data) = visitor.enter(value.clone()) {
              if cur.insert(value.clone()) {
                level += 1;
                self.actions.push(Action::End(value.clone()));
                visitor.process(value, data, &mut self);
              } else if ret.cycle.is_none() {
                ret.cycle = Some(value);
              }
            }
          }
"""))
ref("r2-ts-contains-cur", TSX, (TS, """          if !cur.insert(value.clone()) {
            if ret.cycle.is_none() {
              ret.cycle = Some(value);
            }
            continue;
          }
""", """          if cur.contains(&value) {
            ret.cycle.get_or_insert(value);
            continue;
          }
          cur.insert(value.clone());
"""))
ref("r2-ts-from-iter", TSX, (TS, """    let mut ret = Work::default();
    ret.extend(iter);
    ret
""", """    Self { actions: iter.into_iter().map(Action::Start).collect() }
"""))
CMX = "C21 C22 C25 C26 C39 C40 C41"
CMF = "crates/chain-map/src/lib.rs"
ref("r2-cm-cons-fold", CMX, (CMF, """      let mut one = FxHashMap::<K, V>::default();
      for m in self.stack.drain(..) {
        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());
        one.extend(m);
      }
      self.stack.push(Rc::new(one));
""", """      let one = self.stack.drain(..).fold(FxHashMap::<K, V>::default(), |mut one, m| {
        one.extend(Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone()));
        one
      });
      self.stack.push(Rc::new(one));
"""))
ref("r2-cm-cons-insert", CMX, (CMF, """        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());
        one.extend(m);
""", """        match Rc::try_unwrap(m) {
          Ok(m) => {
            for (k, v) in m {
              one.insert(k, v);
            }
          }
          Err(m) => one.extend(m.iter().map(|(k, v)| (k.clone(), v.clone()))),
        }
"""))
ref("r2-cm-cons-pop", CMX, (CMF, """      for m in self.stack.drain(..) {
        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());
        one.extend(m);
      }
""", """      while let Some(m) = self.stack.pop() {
        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());
        for (k, v) in m {
          one.entry(k).or_insert(v);
        }
      }
"""))
ref("r2-cm-iter-helper", CMX, (CMF, """    std::iter::from_fn(move || {
      loop {
        let (k, v) = iter.next()?;
        if is_len_one || seen.insert(k) {
          return Some((k, v));
        }
      }
    })
""", """    std::iter::from_fn(move || iter.find(|&(k, _)| is_len_one || seen.insert(k)))
"""))
ref("r2-cm-insert-flip", CMX, (CMF, """    let is_new = self.stack.iter().all(|m| !m.contains_key(&k));
    self.stack.push(Rc::new(map([(k, v)])));
    is_new
""", """    let had = self.get(&k).is_some();
    self.extend([(k, v)]);
    !had
"""))
ref("r2-cm-get-match", CMX, (CMF, "    self.stack.iter().rev().find_map(|m| m.get(k))\n", """    let mut idx = self.stack.len();
    while idx > 0 {
      idx -= 1;
      if let Some(v) = self.stack[idx].get(k) {
        return Some(v);
      }
    }
    None
"""))
PAF = "crates/paths/src/lib.rs"
PAX = "C14 C15 C16 C17 C25 C39 C40 C41"
ref("r2-pa-getid-share", PAX, (PAF, """    if let Some(x) = self.path_to_id.get(path) {
      *x
    } else {
      let id = PathId(idx::Idx::new(self.id_to_path.len()));
      self.id_to_path.push(path.to_owned());
      self.path_to_id.insert(path.to_owned(), id);
      id
    }
""", """    match self.path_to_id.get(path) {
      Some(&id) => id,
      None => self.add(path.to_owned()),
    }
"""), (PAF, """    if let Some(x) = self.path_to_id.get(&path) {
      *x
    } else {
      let id = PathId(idx::Idx::new(self.id_to_path.len()));
      self.id_to_path.push(path.clone());
      self.path_to_id.insert(path, id);
      id
    }
  }
""", """    if let Some(&id) = self.path_to_id.get(&path) {
      return id;
    }
    self.add(path)
  }

  fn add(&mut self, path: CleanPathBuf) -> PathId {
    let id = PathId(idx::Idx::new(self.id_to_path.len()));
    self.path_to_id.insert(path.clone(), id);
    self.id_to_path.push(path);
    id
  }
"""))
ref("r2-pa-clean-stack", PAX, (PAF, """    for component in components {
      match component {
        Component::Prefix(..) => unreachable!("prefix can only occur at start"),
        Component::RootDir => ret.push(component.as_os_str()),
        Component::CurDir => {}
        Component::ParentDir => {
          // ignore if we have no parent
          ret.pop();
        }
        Component::Normal(c) => ret.push(c),
      }
    }
""", """    for component in components {
      if matches!(component, Component::CurDir) {
        continue;
      }
      if let Component::ParentDir = component {
        // ignore if we have no parent
        let _ = ret.pop();
        continue;
      }
      assert!(!matches!(component, Component::Prefix(_)), "prefix can only occur at start");
      ret.push(component);
    }
"""))
ref("r2-pa-clean-helper", PAX, (PAF, """    for component in components {
      match component {
        Component::Prefix(..) => unreachable!("prefix can only occur at start"),
        Component::RootDir => ret.push(component.as_os_str()),
        Component::CurDir => {}
        Component::ParentDir => {
          // ignore if we have no parent
          ret.pop();
        }
        Component::Normal(c) => ret.push(c),
      }
    }

    Self(ret)
  }
""", """    components.for_each(|component| push_component(&mut ret, component));

    Self(ret)
  }
"""), (PAF, "/// A file system.\n", """fn push_component(ret: &mut PathBuf, component: Component<'_>) {
  match component {
    Component::Prefix(..) => unreachable!("prefix can only occur at start"),
    Component::RootDir | Component::Normal(_) => ret.push(component.as_os_str()),
    Component::CurDir => {}
    Component::ParentDir => {
      ret.pop();
    }
  }
}

/// A file system.
"""))
ref("r2-pa-push-join", PAX, (PAF, "    self.0.push(path);\n    *self = Self::new_unchecked(self.as_path());\n", "    let joined = self.0.join(path);\n    self.0 = Self::new_unchecked(&joined).0;\n"))
ref("r2-pa-mem-loop", PAX, (PAF, """    let iter = self.inner.keys().filter_map(|pb| {
      let p = pb.as_path();
      (p.starts_with(path) && p != path).then(|| pb.to_owned().into_path_buf())
    });
    Ok(iter.collect())
""", """    let mut ret = Vec::new();
    for pb in self.inner.keys() {
      let p = pb.as_path();
      if p == path || !p.starts_with(path) {
        continue;
      }
      ret.push(p.to_path_buf());
    }
    Ok(ret)
"""))
ref("r2-pa-real-loop", PAX, (PAF, "    std::fs::read_dir(path)?.map(|x| Ok(x?.path())).collect()\n", """    let mut ret = Vec::new();
    for entry in std::fs::read_dir(path)? {
      let entry = entry?;
      ret.push(entry.path());
    }
    Ok(ret)
"""))
ref("r2-pa-real-match", PAX, (PAF, "    std::fs::read_dir(path)?.map(|x| Ok(x?.path())).collect()\n", """    std::fs::read_dir(path)?.map(|x| x.map(|e| e.path())).collect()
"""))
TPF = "crates/text-pos/src/lib.rs"
TPX = "C18 C19 C25 C37 C39 C40 C41"
ref("r2-tp-lc-conv", TPX, (TPF, """    let lc = line_index::LineCol { line: pos.line, col: pos.col };
    let wide = self.inner.to_wide(line_index::WideEncoding::Utf16, lc)?;
    Some(PositionUtf16 { line: wide.line, col: wide.col })
""", """    let wide = self.inner.to_wide(line_index::WideEncoding::Utf16, pos.into())?;
    Some(PositionUtf16 { line: wide.line, col: wide.col })
"""), (TPF, "#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]\nstruct RangeUtf8 {", """impl From<PositionUtf8> for line_index::LineCol {
  fn from(val: PositionUtf8) -> Self {
    Self { line: val.line, col: val.col }
  }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct RangeUtf8 {"""), (TPF, """    let lc = line_index::LineCol { line: pos.line, col: pos.col };
    // `LineIndex""", """    let lc = line_index::LineCol::from(pos);
    // `LineIndex"""))
ref("r2-tp-both", TPX, (TPF, """    Some(RangeUtf16 {
      start: self.position_to_utf16(range.start)?,
      end: self.position_to_utf16(range.end)?,
    })
""", """    let conv = |pos| self.position_to_utf16(pos);
    match (conv(range.start), conv(range.end)) {
      (Some(start), Some(end)) => Some(RangeUtf16 { start, end }),
      _ => None,
    }
"""), (TPF, """    let start = self.text_size_utf8(range.start)?;
    let end = self.text_size_utf8(range.end)?;
    (start <= end).then(|| TextRange::new(start, end))
""", """    let start = self.text_size_utf8(range.start)?;
    let end = self.text_size_utf8(range.end)?;
    if end < start {
      None
    } else {
      Some(TextRange::new(start, end))
    }
"""))
ref("r2-tp-direct-lc", TPX,
    (TPF, "    self.position_to_utf16(self.position_utf8(text_size)?)\n", "    let lc = self.inner.try_line_col(text_size)?;\n    let wide = self.inner.to_wide(line_index::WideEncoding::Utf16, lc)?;\n    Some(PositionUtf16 { line: wide.line, col: wide.col })\n"),
    (TPF, "    self.text_size_utf8(self.position_to_utf8(pos)?)\n", "    self.position_to_utf8(pos).and_then(|pos| self.text_size_utf8(pos))\n"))
ref("r2-tp-range-pts", TPX, (TPF, "    self.range_to_utf16(self.range_utf8(text_range)?)\n", "    let start = self.position_utf16(text_range.start())?;\n    let end = self.position_utf16(text_range.end())?;\n    Some(RangeUtf16 { start, end })\n"),
    (TPF, "  fn range_utf8(&self", "  #[allow(dead_code)]\n  fn range_utf8(&self"), (TPF, "  fn range_to_utf16(&self", "  #[allow(dead_code)]\n  fn range_to_utf16(&self"))

# ---- r3
SPF = "crates/str-process/src/lib.rs"
MDF = "crates/code-h2-md-map/src/lib.rs"
ICF = "crates/identifier-case/src/lib.rs"
ACF = "crates/apply-changes/src/lib.rs"
FUF = "crates/fmt-util/src/lib.rs"
EPF = "crates/event-parse/src/lib.rs"
RSF = "crates/event-parse/src/rowan_sink.rs"
ref("r3-ts-peek-pop", "C23 C24 C41", (TS, "    while let Some(action) = self.actions.pop() {\n      match action {", "    while !self.actions.is_empty() {\n      let Some(action) = self.actions.pop() else { unreachable!() };\n      match action {"))
ref("r3-ts-clone-order", "C23 C24", (TS, "          self.actions.push(Action::End(value.clone()));\n          level += 1;\n          visitor.process(value, data, &mut self);", "          level += 1;\n          let end = Action::End(value.clone());\n          self.actions.push(end);\n          visitor.process(value, data, &mut self);"))
ref("r3-ts-cycle-first", "C23 C24", (TS, "            if ret.cycle.is_none() {\n              ret.cycle = Some(value);\n            }\n            continue;", "            match &ret.cycle {\n              Some(_) => {}\n              None => ret.cycle = Some(value),\n            }\n            continue;"))
ref("r3-tg-order", "C23 C24", (TG, "  let mut visitor = Visitor { graph, order: Vec::new() };", "  let order = Vec::with_capacity(graph.len());\n  let mut visitor = Visitor { graph, order };"))
ref("r3-tg-err", "C23 C24", (TG, "  match got.cycle {\n    Some(x) => Err(CycleError(x)),\n    None => Ok(visitor.order),\n  }", "  let order = visitor.order;\n  match got.cycle.map(CycleError) {\n    None => Ok(order),\n    Some(e) => Err(e),\n  }"))
ref("r3-sp-bump-while-for", "C32 C41", (SPF, "    while let Some(b) = self.cur() {\n      if cond(b) {\n        self.bump();\n      } else {\n        break;\n      }\n    }", "    loop {\n      match self.cur() {\n        Some(b) if cond(b) => self.bump(),\n        _ => return,\n      }\n    }"))
ref("r3-sp-bump-while-count", "C32 C41", (SPF, "    while let Some(b) = self.cur() {\n      if cond(b) {\n        self.bump();\n      } else {\n        break;\n      }\n    }", "    let bs = self.s.as_bytes();\n    while self.idx < bs.len() && cond(bs[self.idx]) {\n      self.idx += 1;\n    }"))
ref("r3-sp-did", "C32 C07", (SPF, "    m.bomb.defuse();\n    self.idx > m.idx\n", "    let ret = m.idx < self.idx;\n    m.bomb.defuse();\n    ret\n"))
ref("r3-sp-nonempty", "C32 C07", (SPF, "    let start = m.idx;\n    assert!(self.did_bump_since(m));\n    &self.s.as_bytes()[start..self.idx]", "    let ret = self.since(m);\n    assert!(!ret.is_empty());\n    ret"))
ref("r3-sp-since-get", "C32 C07", (SPF, "    let start = m.idx;\n    m.bomb.defuse();\n    &self.s.as_bytes()[start..self.idx]", "    m.bomb.defuse();\n    let bs = &self.s.as_bytes()[..self.idx];\n    &bs[m.idx..]"))
ref("r3-sp-prefix-split", "C32", (SPF, "    if self.s.as_bytes().get(self.idx..end).is_some_and(|bs| bs == prefix) {\n      self.idx = end;\n      true\n    } else {\n      false\n    }", "    let hit = self.s.as_bytes().get(self.idx..end) == Some(prefix);\n    if hit {\n      self.idx = end;\n    }\n    hit"))
ref("r3-sp-next-rest", "C32 C41", (SPF, "    self.bump();\n    loop {\n      if self.s.is_char_boundary(self.idx) {\n        break;\n      }\n      match self.cur() {\n        Some(_) => self.bump(),\n        None => unreachable!(\"got to the end without a valid str\"),\n      }\n    }", "    self.bump();\n    while !self.s.is_char_boundary(self.idx) {\n      assert!(self.cur().is_some(), \"got to the end without a valid str\");\n      self.bump();\n    }"))
ref("r3-md-replace", "C36", (MDF, "        if let Some(key) = key {\n          assert!(ret.insert(key, val).is_none());\n        }\n        key = Some(next);\n        val = f(next);", "        if let Some(key) = key.replace(next) {\n          let old = ret.insert(key, val);\n          assert!(old.is_none());\n        }\n        val = f(next);"))
ref("r3-md-fmt", "C36", (MDF, "        val.push('\\n');\n        val.push_str(line);", "        val += \"\\n\";\n        val += line;"))
ref("r3-md-h2-if", "C36", (MDF, "  let mut ret = s.strip_prefix(\"## `\")?.strip_suffix('`')?;\n  if ret == \"` ` `\" {\n    ret = \"`\";\n  }\n  Some(ret)", "  let inner = s.strip_prefix(\"## `\").and_then(|s| s.strip_suffix('`'))?;\n  Some(if inner == \"` ` `\" { \"`\" } else { inner })"))
ref("r3-ic-snake-flag", "C31", (ICF, "    if c == '_' {\n      is_cap = true;\n    } else if is_cap {\n      is_cap = false;\n      ret.push(c.to_ascii_uppercase());\n    } else {\n      ret.push(c.to_ascii_lowercase());\n    }", "    if c != '_' {\n      ret.push(if is_cap { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() });\n    }\n    is_cap = c == '_';"))
ref("r3-ic-snake-take", "C31", (ICF, "    } else if is_cap {\n      is_cap = false;\n      ret.push(c.to_ascii_uppercase());", "    } else if std::mem::take(&mut is_cap) {\n      ret.push(c.to_ascii_uppercase());"))
ref("r3-ic-pascal-len", "C31", (ICF, "  let mut cs = s.chars();\n  // don't put a _ at the start\n  if let Some(c) = cs.next() {\n    ret.push(c.to_ascii_lowercase());\n  }\n  for c in cs {\n    if c.is_ascii_uppercase() {", "  for c in s.chars() {\n    // don't put a _ at the start\n    if c.is_ascii_uppercase() && !ret.is_empty() {"))
ref("r3-ac-index", "C20", (ACF, "  for change in changes {\n    // The None case can't happen as we have handled it above already\n    let Some(range) = change.range else { continue };\n", "  for idx in 0..changes.len() {\n    let change = &changes[idx];\n    // The None case can't happen as we have handled it above already\n    let Some(range) = change.range else { continue };\n"))
ref("r3-ac-split", "C20", (ACF, "      *contents = std::mem::take(&mut changes[idx].text);\n      &changes[idx + 1..]", "      let rest = changes.split_off(idx + 1);\n      if let Some(full) = changes.pop() {\n        *contents = full.text;\n      }\n      changes = rest;\n      &changes[..]"))
ref("r3-ac-valid-if", "C20", (ACF, "    if index_valid <= range.end.line {\n      pos_db", "    let stale = range.end.line >= index_valid;\n    if stale {\n      pos_db"))
ref("r3-fu-peek", "C37", (FUF, "  if let Some(x) = iter.next() {\n    x.fmt(f)?;\n  }\n  for x in iter {\n    f.write_str(sep)?;\n    x.fmt(f)?;\n  }\n  Ok(())", "  let Some(x) = iter.next() else { return Ok(()) };\n  x.fmt(f)?;\n  iter.try_for_each(|x| {\n    f.write_str(sep)?;\n    x.fmt(f)\n  })"))
ref("r3-fu-sepvar", "C37", (FUF, "  if let Some(x) = iter.next() {\n    x.fmt(f)?;\n  }\n  for x in iter {\n    f.write_str(sep)?;\n    x.fmt(f)?;\n  }\n  Ok(())", "  let mut before = \"\";\n  while let Some(x) = iter.next() {\n    f.write_str(before)?;\n    before = sep;\n    x.fmt(f)?;\n  }\n  Ok(())"))
ref("r3-rs-errors-for", "C09", (RSF, "    let errors = std::mem::take(&mut self.no_range).into_iter().map(|inner| Error {\n      range: self.cur.0,\n      kind: self.cur.1.clone(),\n      inner,\n    });\n    self.errors.extend(errors);", "    for inner in self.no_range.drain(..) {\n      let (range, ref kind) = self.cur;\n      self.errors.push(Error { range, kind: kind.clone(), inner });\n    }"))
ref("r3-rs-range", "C09", (RSF, "    let end = start + TextSize::of(token.text);\n    self.cur = (TextRange::new(start, end), Some(kind));", "    self.cur.0 = TextRange::at(start, TextSize::of(token.text));\n    self.cur.1 = Some(kind);"))
ref("r3-rs-trivia-early", "C09", (RSF, "    if !is_trivia {\n      self.extend_errors();\n    }", "    if is_trivia {\n      return;\n    }\n    self.extend_errors();"))
ref("r3-ep-peek-skip", "C04 C05 C41", (EPF, "    while let Some(&tok) = self.tokens.get(self.tok_idx) {\n      if tok.kind.is_trivia() {\n        self.tok_idx += 1;\n      } else {\n        return Some(tok);\n      }\n    }\n    None", "    while self.tokens.get(self.tok_idx).is_some_and(|tok| tok.kind.is_trivia()) {\n      self.tok_idx += 1;\n    }\n    self.tokens.get(self.tok_idx).copied()"))
ref("r3-ep-peekn-last", "C04 C05 C41", (EPF, "    let mut ret = self.peek();\n    let old_tok_idx = self.tok_idx;\n    for _ in 0..n {\n      self.tok_idx += 1;\n      ret = self.peek();\n    }\n    self.tok_idx = old_tok_idx;\n    ret", "    let mut ret = self.peek();\n    let start = self.tok_idx;\n    let mut left = n;\n    while left > 0 {\n      self.tok_idx += 1;\n      ret = self.peek();\n      left -= 1;\n    }\n    self.tok_idx = start;\n    ret"))
ref("r3-ep-bump-else", "C05 C08", (EPF, "    let ret = self.peek().expect(\"bump with no tokens\");", "    let Some(ret) = self.peek() else { panic!(\"bump with no tokens\") };"))
ref("r3-ep-bump-order", "C05 C08", (EPF, "    self.events.push(Some(Event::Token));\n    self.tok_idx += 1;\n    self.consumed += 1;\n    ret", "    self.consumed += 1;\n    self.tok_idx += 1;\n    self.events.push(Some(Event::Token));\n    ret"))
ref("r3-ep-eat-match", "C05 C04", (EPF, "    if self.at(kind) {\n      Some(self.bump())\n    } else {\n      self.error(E::expected(kind));\n      None\n    }", "    match self.peek() {\n      Some(tok) if tok.kind == kind => Some(self.bump()),\n      _ => {\n        self.error(E::expected(kind));\n        None\n      }\n    }"))
ref("r3-ep-ok-not", "C06", (EPF, "    if error_since {\n      self.tok_idx = save.tok_idx;\n      self.consumed = save.consumed;\n      self.events.truncate(save.events_len);\n    }\n    !error_since", "    if !error_since {\n      return true;\n    }\n    self.events.truncate(save.events_len);\n    let Save { tok_idx, consumed, .. } = save;\n    self.tok_idx = tok_idx;\n    self.consumed = consumed;\n    false"))
ref("r3-ep-exit-replace", "C02 C08 C07", (EPF, "    let ev = &mut self.events[en.ev_idx];\n    assert!(ev.is_none());\n    *ev = Some(Event::Enter(kind, None));", "    let old = self.events[en.ev_idx].replace(Event::Enter(kind, None));\n    assert!(old.is_none());"))
ref("r3-ep-enter-let", "C02 C08 C07", (EPF, "    let ev_idx = self.events.len();\n    self.events.push(None);\n    let bomb = DropBomb::new(\"Entered markers must be exited\");\n    Entered { bomb, ev_idx, consumed: self.consumed, child: None }", "    let ret = Entered {\n      bomb: DropBomb::new(\"Entered markers must be exited\"),\n      ev_idx: self.events.len(),\n      consumed: self.consumed,\n      child: None,\n    };\n    self.events.push(None);\n    ret"))
ref("r3-ep-precede-ref", "C02 C08 C07", (EPF, "    match self.events[ex.ev_idx] {\n      Some(Event::Enter(_, ref mut parent)) => {", "    match &mut self.events[ex.ev_idx] {\n      Some(Event::Enter(_, parent)) => {"), (EPF, "      ref ev => unreachable!(\"{:?} preceded {:?}, not Enter\", ex, ev),", "      ev => unreachable!(\"{:?} preceded {:?}, not Enter\", ex, ev),"))
ref("r3-ep-abandon-nested", "C02 C07", (EPF, "    if let Some(child) = en.child {\n      if let Some(Event::Enter(_, parent)) = &mut self.events[child] {\n        *parent = None;\n      }\n    }", "    let Some(child) = en.child else { return };\n    if let Some(Event::Enter(_, ref mut parent)) = self.events[child] {\n      parent.take();\n    }"))
ref("r3-ep-finish-token", "C01 C02 C03", (EPF, "          self.eat_trivia(&mut to_enter, sink);\n          self.token(&mut to_enter, sink, self.tokens[self.tok_idx]);", "          self.eat_trivia(&mut to_enter, sink);\n          let tok = self.tokens[self.tok_idx];\n          self.token(&mut to_enter, sink, tok);"))
ref("r3-ep-finish-fst", "C01 C02 C03", (EPF, "          if fst.is_none() {\n            fst = Some(kind);\n          }\n", "          fst = fst.or(Some(kind));\n"))
ref("r3-ep-finish-pop", "C01 C02 C03", (EPF, "          for kind in kinds.drain(..).rev() {", "          while let Some(kind) = kinds.pop() {"))
ref("r3-ep-finish-exit", "C01 C02 C03", (EPF, "          if to_enter.pop().is_none() {\n            sink.exit();\n          }", "          match to_enter.pop() {\n            Some(_) => {}\n            None => sink.exit(),\n          }"))

# ---- r4
R4P = "crates/paths/src/lib.rs"
R4C = "crates/chain-map/src/lib.rs"
R4A = "crates/pattern-match/src/alg.rs"
R4M = "crates/pattern-match/src/matrix.rs"
R4D = "crates/diagnostic/src/lib.rs"
R4F = "crates/fast-hash/src/lib.rs"
R4U = "crates/str-util/src/lib.rs"
PCH = "C14 C15 C16 C17 C25 C35 C39 C40 C41 C44"
ref("r4-pa-id-fn", PCH, (R4P, "    if let Some(x) = self.path_to_id.get(path) {\n      *x\n    } else {\n      let id = PathId(idx::Idx::new(self.id_to_path.len()));\n      self.id_to_path.push(path.to_owned());\n      self.path_to_id.insert(path.to_owned(), id);\n      id\n    }", "    if let Some(&x) = self.path_to_id.get(path) {\n      return x;\n    }\n    self.insert(path.to_owned())"),
    (R4P, "    if let Some(x) = self.path_to_id.get(&path) {\n      *x\n    } else {\n      let id = PathId(idx::Idx::new(self.id_to_path.len()));\n      self.id_to_path.push(path.clone());\n      self.path_to_id.insert(path, id);\n      id\n    }\n  }", "    if let Some(&x) = self.path_to_id.get(&path) {\n      return x;\n    }\n    self.insert(path)\n  }\n\n  fn insert(&mut self, path: CleanPathBuf) -> PathId {\n    let id = PathId(idx::Idx::new(self.path_to_id.len()));\n    self.path_to_id.insert(path.clone(), id);\n    self.id_to_path.push(path);\n    id\n  }"))
ref("r4-pa-id-copied", PCH, (R4P, "    if let Some(x) = self.path_to_id.get(path) {\n      *x\n    } else {\n      let id = PathId(idx::Idx::new(self.id_to_path.len()));\n      self.id_to_path.push(path.to_owned());\n      self.path_to_id.insert(path.to_owned(), id);\n      id\n    }", "    self.path_to_id.get(path).copied().unwrap_or_else(|| {\n      let id = PathId(idx::Idx::new(self.id_to_path.len()));\n      let path = path.to_owned();\n      self.id_to_path.push(path.clone());\n      self.path_to_id.insert(path, id);\n      id\n    })"))
ref("r4-pa-get-path", PCH, (R4P, "    self.id_to_path[id.0.to_usize()].as_clean_path()", "    let idx = id.0.to_usize();\n    let path = &self.id_to_path[idx];\n    CleanPath::new_unchecked(path.as_path())"))
ref("r4-pa-combine-while", PCH, (R4P, "    for (idx, path) in other.id_to_path.into_iter().enumerate() {\n      let old = PathId(idx::Idx::new(idx));\n      let new = self.get_id_owned(path);\n      f(old, new);\n    }", "    let mut idx = 0usize;\n    for path in other.id_to_path {\n      f(PathId(idx::Idx::new(idx)), self.get_id_owned(path));\n      idx += 1;\n    }"))
ref("r4-pa-clean-while", PCH, (R4P, "    for component in components {\n      match component {", "    while let Some(component) = components.next() {\n      match component {"))
ref("r4-pa-clean-arms", PCH, (R4P, "        Component::RootDir => ret.push(component.as_os_str()),\n        Component::CurDir => {}\n", "        Component::CurDir => continue,\n"), (R4P, "        Component::Normal(c) => ret.push(c),", "        Component::RootDir | Component::Normal(_) => ret.push(component),"))
ref("r4-pa-new-not", PCH, (R4P, "    path.is_absolute().then(|| Self::new_unchecked(path))", "    if path.is_relative() {\n      return None;\n    }\n    Some(Self::new_unchecked(path))"))
ref("r4-pa-push-new", PCH, (R4P, "    self.0.push(path);\n    *self = Self::new_unchecked(self.as_path());", "    let mut raw = std::mem::take(&mut self.0);\n    raw.push(path);\n    self.0 = Self::new_unchecked(&raw).0;"))
ref("r4-pa-join-raw", PCH, (R4P, "    let mut ret = self.to_owned();\n    ret.push(other);\n    ret", "    CleanPathBuf::new_unchecked(&self.as_path().join(other))"))
ref("r4-pa-readdir-for", PCH, (R4P, "    std::fs::read_dir(path)?.map(|x| Ok(x?.path())).collect()", "    let mut ret = Vec::new();\n    for entry in std::fs::read_dir(path)? {\n      let entry = entry?;\n      ret.push(entry.path());\n    }\n    Ok(ret)"))
ref("r4-pa-mem-filter", PCH, (R4P, "    let iter = self.inner.keys().filter_map(|pb| {\n      let p = pb.as_path();\n      (p.starts_with(path) && p != path).then(|| pb.to_owned().into_path_buf())\n    });\n    Ok(iter.collect())", "    let inside = |pb: &&CleanPathBuf| pb.as_path() != path && pb.as_path().starts_with(path);\n    Ok(self.inner.keys().filter(inside).map(|pb| pb.as_path().to_path_buf()).collect())"))
CMC = "C21 C22 C25 C41 C39"
ref("r4-cm-insert-rev", CMC, (R4C, "    let is_new = self.stack.iter().all(|m| !m.contains_key(&k));\n    self.stack.push(Rc::new(map([(k, v)])));\n    is_new", "    let had = self.get(&k).is_some();\n    let mut top = FxHashMap::default();\n    top.insert(k, v);\n    self.stack.push(Rc::new(top));\n    !had"))
ref("r4-cm-get-while", CMC, (R4C, "    self.stack.iter().rev().find_map(|m| m.get(k))", "    let mut idx = self.stack.len();\n    while idx > 0 {\n      idx -= 1;\n      if let Some(v) = self.stack[idx].get(k) {\n        return Some(v);\n      }\n    }\n    None"))
ref("r4-cm-iter-find", CMC, (R4C, "    std::iter::from_fn(move || {\n      loop {\n        let (k, v) = iter.next()?;\n        if is_len_one || seen.insert(k) {\n          return Some((k, v));\n        }\n      }\n    })", "    std::iter::from_fn(move || iter.by_ref().find(|&(k, _)| is_len_one || seen.insert(k)))"))
ref("r4-cm-cons-with-cap", CMC, (R4C, "      for m in self.stack.drain(..) {\n        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());\n        one.extend(m);\n      }", "      for m in std::mem::take(&mut self.stack) {\n        match Rc::try_unwrap(m) {\n          Ok(m) => one.extend(m),\n          Err(m) => one.extend(m.iter().map(|(k, v)| (k.clone(), v.clone()))),\n        }\n      }"))
ref("r4-cm-cons-mut", CMC, (R4C, "    Rc::make_mut(self.stack.first_mut().unwrap())", "    let only = &mut self.stack[0];\n    Rc::make_mut(only)"))
PMC = "C10 C11 C12 C13 C25 C41"
ref("r4-pm-useful-zero", PMC, (R4A, "    return Ok(if mtx.num_rows() == 0 { Useful::yes() } else { Useful::no() });", "    let ret = match mtx.num_rows() {\n      0 => Useful::yes(),\n      _ => Useful::no(),\n    };\n    return Ok(ret);"))
ref("r4-pm-idx-and", PMC, (R4A, "  if let Some(idx) = idx {\n    if !ret.witnesses.is_empty() {\n      ac.remove(&idx);\n    }\n  }\n  Ok(ret)", "  if ret.witnesses.is_empty() {\n    return Ok(ret);\n  }\n  if let Some(idx) = idx {\n    ac.remove(&idx);\n  }\n  Ok(ret)"))
ref("r4-pm-witness-split", PMC, (R4A, "          let args: Vec<_> = w.drain(w.len() - new_len..).rev().collect();\n          w.push(", "          let mut args = w.split_off(w.len() - new_len);\n          args.reverse();\n          w.push("))
ref("r4-pm-or-noclone", PMC, (R4A, "        let mut val = val.clone();\n        val.push((pat, ty.clone()));\n        ret.extend(useful(cx, ac, depth + 1, &m, val.clone())?);\n        m.push(val.into_iter().map(|(x, _)| x).collect());", "        let mut row: Vec<_> = val.iter().map(|(x, _)| x.clone()).collect();\n        row.push(pat.clone());\n        let mut val = val.clone();\n        val.push((pat, ty.clone()));\n        let u = useful(cx, ac, depth + 1, &m, val)?;\n        ret.extend(u);\n        m.push(row);"))
ref("r4-pm-spec-let", PMC, (R4A, "          let new = specialize(cx, &ty, &row.con_pat, &con)?;\n          if let Some(new) = new {\n            let mut pats", "          let Some(new) = specialize(cx, &ty, &row.con_pat, &con)? else { continue };\n          {\n            let mut pats"))
ref("r4-pm-spec-for", PMC, (R4A, "    let mut ret: Vec<_> =\n      pat.args.iter().cloned().chain(std::iter::repeat(Pat::any_no_idx())).zip(tys).collect();\n    ret.reverse();\n    Some(ret)", "    let mut args = pat.args.iter();\n    let mut ret = Vec::with_capacity(tys.len());\n    for t in tys {\n      let arg = match args.next() {\n        Some(arg) => arg.clone(),\n        None => Pat::any_no_idx(),\n      };\n      ret.push((arg, t));\n    }\n    ret.reverse();\n    Some(ret)"))
ref("r4-pm-idxs-both", PMC, (R4A, "    RawPat::Con(con_pat) => {\n      for pat in &con_pat.args {\n        get_pat_indices(ac, pat);\n      }\n    }\n    RawPat::Or(pats) => {\n      for pat in pats {\n        get_pat_indices(ac, pat);\n      }\n    }\n", "    RawPat::Con(ConPat { args: pats, .. }) | RawPat::Or(pats) => {\n      pats.iter().for_each(|pat| get_pat_indices(ac, pat));\n    }\n"))
ref("r4-pm-push-else", PMC, (R4M, "    match row.pop() {\n      None => self.rows.push(Row::Empty),\n      Some(pat) => {\n        let mut con_pats = Vec::new();\n        expand_or(&mut con_pats, pat);\n        for con_pat in con_pats {\n          self.rows.push(Row::NonEmpty(NonEmptyRow { pats: row.clone(), con_pat }));\n        }\n      }\n    }", "    let Some(pat) = row.pop() else {\n      self.rows.push(Row::Empty);\n      return;\n    };\n    let mut con_pats = Vec::new();\n    expand_or(&mut con_pats, pat);\n    let pats = row;\n    self.rows.extend(con_pats.into_iter().map(|con_pat| Row::NonEmpty(NonEmptyRow { pats: pats.clone(), con_pat })));"))
ref("r4-dg-from", "C37 C40 C35", (R4D, "    match u16::from_str(s) {\n      Ok(n) => Ok(Self(n)),\n      Err(e) => Err(ParseCodeError(e)),\n    }", "    let n: u16 = s.parse().map_err(ParseCodeError)?;\n    Ok(Self::n(n))"))
ref("r4-dg-write", "C37 C40", (R4D, "    match self {\n      Severity::Warning => f.write_str(\"warning\"),\n      Severity::Error => f.write_str(\"error\"),\n    }", "    let name = match *self {\n      Severity::Warning => \"warning\",\n      Severity::Error => \"error\",\n    };\n    f.write_str(name)"))
ref("r4-dg-pieces", "C37 C40", (R4D, "    write!(f, \"{}: {}: {}\", self.range, self.severity, self.message)", "    let Diagnostic { range, message, severity } = self;\n    write!(f, \"{range}: {severity}: \")?;\n    f.write_str(message)"))
ref("r4-fh-loop", "C26 C41", (R4F, "  for k in xs {\n    assert!(ret.insert(k));\n  }\n  ret", "  for k in xs {\n    let fresh = ret.insert(k);\n    assert!(fresh);\n  }\n  ret"), (R4F, "    assert!(ret.insert(k, v).is_none());", "    let old = ret.insert(k, v);\n    assert!(old.is_none());"))
ref("r4-fh-collect", "C26 C41", (R4F, "  let mut ret = set_with_capacity(xs.len());\n  for k in xs {\n    assert!(ret.insert(k));\n  }\n  ret", "  let ret: FxHashSet<K> = xs.into_iter().collect();\n  assert_eq!(ret.len(), N);\n  ret"))
ref("r4-su-match", "C33 C16", (R4U, "    let s: SmolStr = s.into();\n    (!s.is_empty()).then_some(Self(s))", "    match s.into() {\n      s if s.is_empty() => None,\n      s => Some(Self(s)),\n    }"), (R4U, "    Self::try_new(s).expect(\"empty string for Name\")", "    match Self::try_new(s) {\n      Some(ret) => ret,\n      None => panic!(\"empty string for Name\"),\n    }"))
