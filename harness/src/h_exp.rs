//! The JSON reader of `experiments`.
use crate::node::{Hdr, Node};
use crate::rec::{record, same, Rec, EXACT, MERGED};
use crate::{check, harnesses, rt};
use sval::Value;
use sval_experiments::json::from_slice;

/// Writes a document and the value it denotes.
struct Doc {
    out: Vec<u8>,
    nodes: usize,
    tokens: usize,
    /// where there's whitespace
    ws_at: usize,
    /// length of the document before each token
    cuts: Vec<usize>,
    rich: bool,
}

/// Whitespace before every token.
const EVERYWHERE: usize = usize::MAX - 1;

fn tagged(t: sval::Tag, n: Node) -> Node {
    Node::Tagged(Hdr { tag: Some(t), ..Hdr::default() }, Box::new(n))
}

impl Doc {
    fn tok(&mut self, s: &[u8]) {
        if self.ws_at == EVERYWHERE {
            self.out.extend_from_slice([&b" "[..], b"\n\t", b"\r\n "][self.tokens % 3]);
        }
        if self.tokens == self.ws_at {
            let [w] = rt::bytes::<1>();
            rt::assume(w == b' ' || w == b'\t' || w == b'\r' || w == b'\n');
            self.out.push(w);
        }
        self.tokens += 1;
        self.out.extend_from_slice(s);
        self.cuts.push(self.out.len());
    }

    /// A string.
    fn string(&mut self) -> Node {
        let mut src = vec![b'"'];
        let mut text = Vec::new();
        let n = if self.rich { rt::choice(4) } else { rt::choice(2) };
        for _ in 0..n {
            match if self.rich { rt::choice(6) } else { 0 } {
                0 => {
                    let [c] = rt::bytes::<1>();
                    rt::assume(c >= b' ' && c < 0x7f && c != b'"' && c != b'\\');
                    src.push(c);
                    text.push(c);
                }
                1 => {
                    src.extend_from_slice("é".as_bytes());
                    text.extend_from_slice("é".as_bytes());
                }
                k => {
                    let (e, c) = [(b'n', b'\n'), (b'r', b'\r'), (b'"', b'"'), (b'\\', b'\\')][k - 2];
                    src.extend_from_slice(&[b'\\', e]);
                    text.push(c);
                }
            }
        }
        src.push(b'"');
        self.tok(&src);
        let text: &'static [u8] = Box::leak(text.into_boxed_slice());
        Node::Text(None, vec![(false, unsafe { core::str::from_utf8_unchecked(text) })])
    }

    fn number(&mut self) -> Node {
        let mut s = Vec::new();
        let d = || b'0' + rt::digit();
        if rt::flag() {
            s.push(b'-');
        }
        s.push(d());
        if rt::flag() {
            s.push(b'.');
            s.push(d());
        }
        match rt::choice(4) {
            0 => (),
            1 => s.extend_from_slice(&[b'e', d()]),
            2 => s.extend_from_slice(&[b'e', b'+', d()]),
            _ => s.extend_from_slice(&[b'e', b'-', d()]),
        }
        self.tok(&s);
        let s: &'static [u8] = Box::leak(s.into_boxed_slice());
        let t = Node::Text(None, vec![(false, unsafe { core::str::from_utf8_unchecked(s) })]);
        tagged(sval_json::tags::JSON_NUMBER, tagged(sval::tags::NUMBER, t))
    }

    fn value(&mut self) -> Node {
        self.nodes -= 1;
        let k = if self.nodes > 0 { rt::choice(if self.rich { 7 } else { 4 }) } else { 2 + rt::choice(if self.rich { 5 } else { 2 }) };
        match k {
            0 => {
                let mut v = Vec::new();
                self.tok(b"[");
                while self.nodes > 0 && rt::flag() {
                    if !v.is_empty() {
                        self.tok(b",");
                    }
                    v.push(self.value());
                }
                self.tok(b"]");
                Node::Seq(None, v)
            }
            1 => {
                let mut v = Vec::new();
                self.tok(b"{");
                while self.nodes > 0 && rt::flag() {
                    if !v.is_empty() {
                        self.tok(b",");
                    }
                    let k = self.string();
                    self.tok(b":");
                    v.push((k, self.value()));
                }
                self.tok(b"}");
                Node::Map(None, v)
            }
            2 => self.string(),
            3 if !self.rich => {
                let c = b'0' + rt::digit();
                self.tok(&[c]);
                let s: &'static [u8] = Box::leak(Box::new([c]));
                let t = Node::Text(None, vec![(false, unsafe { core::str::from_utf8_unchecked(s) })]);
                tagged(sval_json::tags::JSON_NUMBER, tagged(sval::tags::NUMBER, t))
            }
            3 => self.number(),
            4 => {
                self.tok(b"null");
                Node::Null
            }
            5 => {
                self.tok(b"true");
                Node::Bool(true)
            }
            _ => {
                self.tok(b"false");
                Node::Bool(false)
            }
        }
    }
}

fn doc(nodes: usize, rich: bool, ws: bool) -> (Doc, &'static str, Node) {
    let ws_at = if ws { rt::choice(9) } else { usize::MAX };
    let mut d = Doc { out: Vec::new(), nodes, tokens: 0, ws_at, cuts: Vec::new(), rich };
    let n = d.value();
    if ws && d.tokens < ws_at {
        rt::assume(d.tokens + 1 == ws_at);
        d.out.push(b'\n');
    }
    let s: &'static [u8] = Box::leak(d.out.clone().into_boxed_slice());
    let s = unsafe { core::str::from_utf8_unchecked(s) };
    (d, s, n)
}

fn reads(nodes: usize, rich: bool, ws: bool) {
    let (_, s, n) = doc(nodes, rich, ws);
    reads_as(s, n, ws)
}

fn reads_as(s: &'static str, n: Node, ws: bool) {
    let (want, ok) = record(MERGED, &n);
    check!(ok, "harness");
    let mut got = Rec::new(MERGED);
    check!(from_slice(s).stream(&mut got).is_ok(), "a document was refused");
    rt::obs(&got.log);
    rt::reach(1);
    same(&want, &got, "the document's value is another");
    if !ws {
        let t = sval_json::stream_to_string(from_slice(s));
        check!(t.is_ok_and(|t| rt::eq(t.as_bytes(), s.as_bytes())), "the document didn't come back");
    }
}

harnesses! {
    fn h_exp_tree() { reads(5, false, false) }
    fn h_exp_tree6() { reads(6, false, false) }
    fn h_exp_rich() { reads(2, true, false) }
    fn h_exp_ws() { reads(4, false, true) }
    fn h_exp_ws_rich() { reads(1, true, true) }
    /// whitespace before every token
    fn h_exp_ws_all() {
        let rich = rt::flag();
        let mut d = Doc { out: Vec::new(), nodes: if rich { 1 } else { 4 }, tokens: 0, ws_at: EVERYWHERE, cuts: Vec::new(), rich };
        let n = d.value();
        d.tok(b"");
        let s: &'static [u8] = Box::leak(d.out.clone().into_boxed_slice());
        reads_as(unsafe { core::str::from_utf8_unchecked(s) }, n, true)
    }
    /// long strings and numbers, many elements, deep nesting
    fn h_exp_big() {
        let mut d = Doc { out: Vec::new(), nodes: 1, tokens: 0, ws_at: usize::MAX, cuts: Vec::new(), rich: false };
        let num = |s: &'static str| tagged(sval_json::tags::JSON_NUMBER, tagged(sval::tags::NUMBER, Node::Text(None, vec![(false, s)])));
        let n = match rt::choice(4) {
            0 => {
                let s = crate::shapes::spotted([40, 260, 1030][rt::choice(3)]);
                let mut src = vec![b'"'];
                for c in s.bytes() {
                    // concrete except for one
                    if c == b'x' {
                        src.push(c);
                    } else {
                        rt::assume(c >= b' ' && c < 0x7f);
                        if c == b'"' || c == b'\\' {
                            src.push(b'\\');
                        }
                        src.push(c);
                    }
                }
                src.push(b'"');
                d.tok(&src);
                Node::Text(None, vec![(false, s)])
            }
            1 => {
                let n = [17, 70, 140][rt::choice(3)];
                let mut v = vec![b'8'; n];
                v[[0, n / 2, n - 1][rt::choice(3)]] = b'0' + rt::digit();
                let v: &'static [u8] = Box::leak(v.into_boxed_slice());
                d.tok(v);
                num(unsafe { core::str::from_utf8_unchecked(v) })
            }
            2 => {
                let n = [33, 130, 260][rt::choice(3)];
                let at = [0, 1, 16, n / 2, n - 1][rt::choice(5)];
                let c: &'static [u8] = Box::leak(Box::new([b'0' + rt::digit()]));
                let c = unsafe { core::str::from_utf8_unchecked(c) };
                let map = rt::flag();
                let (mut seq, mut ents) = (Vec::new(), Vec::new());
                d.tok(if map { b"{" } else { b"[" });
                for i in 0..n {
                    if i > 0 {
                        d.tok(b",");
                    }
                    if map {
                        d.tok(b"\"k\"");
                        d.tok(b":");
                    }
                    let v = if i == at {
                        d.tok(c.as_bytes());
                        num(c)
                    } else if i % 3 == 0 {
                        d.tok(b"null");
                        Node::Null
                    } else if i % 3 == 1 {
                        d.tok(b"[]");
                        Node::Seq(None, vec![])
                    } else {
                        d.tok(b"{}");
                        Node::Map(None, vec![])
                    };
                    if map {
                        ents.push((Node::Text(None, vec![(false, "k")]), v));
                    } else {
                        seq.push(v);
                    }
                }
                d.tok(if map { b"}" } else { b"]" });
                if map { Node::Map(None, ents) } else { Node::Seq(None, seq) }
            }
            _ => {
                let n = [20, 33, 60][rt::choice(3)];
                let pattern = rt::choice(6);
                let is_map = |i: usize| match pattern { 0 => false, 1 => true, 2 => i % 2 == 0, 3 => i % 2 == 1, 4 => i % 3 == 0, _ => i < n / 2 };
                let c: &'static [u8] = Box::leak(Box::new([b'0' + rt::digit()]));
                let c = unsafe { core::str::from_utf8_unchecked(c) };
                for i in 0..n {
                    d.tok(if is_map(i) { b"{\"k\":" } else { b"[" });
                }
                d.tok(c.as_bytes());
                let mut v = num(c);
                for i in (0..n).rev() {
                    if is_map(i) {
                        d.tok(b",\"z\":true}");
                        v = Node::Map(None, vec![(Node::Text(None, vec![(false, "k")]), v), (Node::Text(None, vec![(false, "z")]), Node::Bool(true))]);
                    } else {
                        d.tok(b",null]");
                        v = Node::Seq(None, vec![v, Node::Null]);
                    }
                }
                v
            }
        };
        let s: &'static [u8] = Box::leak(d.out.clone().into_boxed_slice());
        reads_as(unsafe { core::str::from_utf8_unchecked(s) }, n, false)
    }
    /// nesting
    fn h_exp_deep() {
        let d = 1 + rt::choice(8);
        let mut n = Node::Text(None, vec![(false, rt::letters(1))]);
        let Node::Text(_, t) = &n else { unreachable!() };
        let mut s = format!("\"{}\"", t[0].1).into_bytes();
        for _ in 0..d {
            match rt::choice(3) {
                0 => {
                    s.insert(0, b'[');
                    s.push(b']');
                    n = Node::Seq(None, vec![n]);
                }
                1 => {
                    s.insert(0, b'[');
                    s.extend_from_slice(b",\"z\"]");
                    n = Node::Seq(None, vec![n, Node::Text(None, vec![(false, "z")])]);
                }
                _ => {
                    let k = rt::letters(1);
                    let mut t = vec![b'{', b'"'];
                    t.extend_from_slice(k.as_bytes());
                    t.extend_from_slice(b"\":");
                    t.extend_from_slice(&s);
                    t.push(b'}');
                    s = t;
                    n = Node::Map(None, vec![(Node::Text(None, vec![(false, k)]), n)]);
                }
            }
        }
        let s: &'static [u8] = Box::leak(s.into_boxed_slice());
        let s = unsafe { core::str::from_utf8_unchecked(s) };
        let (want, _) = record(MERGED, &n);
        let mut got = Rec::new(MERGED);
        check!(from_slice(s).stream(&mut got).is_ok(), "a document was refused");
        rt::reach(1);
        same(&want, &got, "the document's value is another");
    }
    /// streams that fail
    fn h_exp_fault() {
        let (_, s, _) = doc(3, false, false);
        let (all, ok) = record(EXACT, from_slice(s));
        check!(ok, "a document was refused");
        let at = rt::choice(12) as u32;
        let mut r = Rec::failing_at(EXACT, at);
        let res = from_slice(s).stream(&mut r);
        check!(res.is_err() == (at < all.tokens), "an error was swallowed or invented");
        check!(r.after_fail == 0, "the stream was called after it failed");
        if res.is_err() { rt::reach(1) } else { rt::reach(2) }
    }
    /// documents that stop early
    fn h_exp_cut() {
        let (d, s, n) = doc(4, false, false);
        rt::assume(matches!(n, Node::Seq(..) | Node::Map(..)));
        let k = rt::choice(10);
        rt::assume(k + 1 < d.cuts.len());
        let mut r = Rec::new(MERGED);
        check!(from_slice(&s[..d.cuts[k]]).stream(&mut r).is_err(), "a document that stops inside of a container is accepted");
        rt::reach(1);
    }
}
