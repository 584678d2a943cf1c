//! Program grammar of the documented input language of `#[auto_enum]`, as a deterministic function
//! of a choice sequence. Every derivation up to a size bound ("fuel") is one program; the explorer
//! enumerates all of them.
//!
//! The grammar knows, by construction, how many value positions each annotation has ("wraps"), the
//! trait list of each annotation, and therefore whether the program must be accepted.

use crate::chooser::Chooser;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Profile {
    Branch,
    Loop,
    Return,
    Try,
    Diverge,
    Nested,
    Marker,
    Multi,
    Mix,
}

#[derive(Clone, Debug)]
pub struct Frame {
    pub args: String,
    pub wraps: usize,
    pub has_child: bool,
    pub marker: String,
    /// statement-level annotation with trailing semicolon: only markers count
    pub method_ok: bool,
}

#[derive(Clone)]
enum Val {
    /// wrapped by frame
    Wrap(usize),
    /// must be exactly `T<n>`
    Typed(usize),
    Unit,
}

#[derive(Clone)]
struct Brk {
    label: Option<String>,
    val: Val,
}

#[derive(Clone)]
enum Ret {
    Val(Val),
    /// function returns `Result<X<0>, _>` resp. `Option<T<n>>`; plain
    Opt,
    Res(usize),
    No,
}

#[derive(Clone)]
struct Ctx {
    ret: Ret,
    /// `?` is wrapped by this frame
    try_: Option<usize>,
    brk: Vec<Brk>,
    /// unlabelled break/continue not allowed here (while condition / closure in loop)
    no_plain: bool,
}

#[derive(Clone, Debug)]
pub struct Program {
    /// items of a module defining `main_`
    pub src: String,
    pub frames: Vec<Frame>,
    pub reject: bool,
    pub markers: Vec<String>,
}

pub struct G<'c> {
    ch: &'c mut Chooser,
    fuel: usize,
    p: Profile,
    tag: usize,
    evn: usize,
    frames: Vec<Frame>,
    cur: usize,
    /// the derivation is outside the documented language (e.g. fewer than two `?`)
    skip: bool,
}

pub fn generate(ch: &mut Chooser, p: Profile, fuel: usize) -> Option<Program> {
    let mut g = G { ch, fuel, p, tag: 0, evn: 0, frames: vec![], cur: 0, skip: false };
    let src = g.program();
    if g.skip {
        return None;
    }
    let reject =
        g.frames.iter().any(|f| !f.args.is_empty() && (f.wraps == 1 || f.wraps == 0 && !f.has_child));
    let mut markers: Vec<String> = g.frames.iter().map(|f| f.marker.clone()).collect();
    markers.push("marker".into());
    markers.sort();
    markers.dedup();
    Some(Program { src, frames: g.frames, reject, markers })
}

impl G<'_> {
    fn n(&mut self) -> usize {
        self.evn += 1;
        self.evn
    }
    fn t(&mut self) -> String {
        self.tag += 1;
        format!("t::<{}>()", self.tag)
    }
    fn newtag(&mut self) -> usize {
        self.tag += 1;
        self.tag
    }
    fn b(&mut self) -> String {
        let n = self.n();
        format!("b({n})")
    }

    /// choose one of the affordable options; returns its id
    fn pick<T: Copy>(&mut self, opts: &[(usize, T)]) -> T {
        let ok: Vec<(usize, T)> = opts.iter().copied().filter(|o| o.0 <= self.fuel).collect();
        let i = self.ch.choose(ok.len());
        self.fuel -= ok[i].0;
        ok[i].1
    }

    fn frame(&mut self, args: &str) -> usize {
        self.frames.push(Frame {
            args: args.into(),
            wraps: 0,
            has_child: false,
            marker: "marker".into(),
            method_ok: false,
        });
        self.frames.len() - 1
    }
    fn wrap(&mut self, f: usize) {
        self.frames[f].wraps += 1;
    }

    // ---- leaves

    /// a single-typed value expression; `tag` fixed
    fn leaf_of(&mut self, tag: usize, rich: bool) -> String {
        let t = format!("t::<{tag}>()");
        if !rich {
            return t;
        }
        let mut o = vec![(0, 0), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6)];
        if matches!(self.p, Profile::Marker | Profile::Return | Profile::Loop) {
            o.extend_from_slice(&[(1, 7), (1, 8)]);
        }
        match self.pick(&o) {
            0 => t,
            // macros that are not markers: another name, a path ending in a marker's name
            7 => format!("other::same!({t})"),
            8 => {
                let m = self.frames.last().map_or("marker".into(), |f| f.marker.clone());
                let m = if m == "marker" || m == "mk" { m } else { "mk".into() };
                format!("other::{m}!({t})")
            }
            1 => {
                let n = self.n();
                format!("{{ ev({n}); {t} }}")
            }
            2 => format!("if {} {{ {t} }} else {{ {t} }}", self.b()),
            3 => {
                let n = self.n();
                format!("match s2({n}) {{ 0 => {t}, _ => {t} }}")
            }
            4 => format!("(|| {t})()"),
            5 => {
                let n = self.n();
                format!("{t}.id({n})")
            }
            _ => format!("{{ let v = {t}; v }}"),
        }
    }
    fn leaf(&mut self) -> String {
        let tag = self.newtag();
        self.leaf_of(tag, true)
    }

    fn val(&mut self, v: &Val, cx: &Ctx) -> String {
        match v {
            Val::Unit => String::new(),
            Val::Typed(n) => {
                let n = *n;
                format!(" t::<{n}>()")
            }
            Val::Wrap(f) => {
                let f = *f;
                self.wrap(f);
                let mk = matches!(self.p, Profile::Marker | Profile::Return | Profile::Loop);
                let mut o = vec![(0, 0), (1, 1)];
                if mk {
                    o.push((1, 2));
                    o.push((1, 4));
                }
                let m = &self.frames[f].marker;
                if self.p == Profile::Mix && (self.cur == f || m != "marker") {
                    // (the default marker belongs to the innermost annotation)
                    o.push((1, 2));
                }
                o.push((1, 3));
                match self.pick(&o) {
                    0 => format!(" {}", self.t()),
                    1 => format!(" {}", self.leaf()),
                    2 => {
                        let m = self.frames[f].marker.clone();
                        format!(" {m}!({})", self.t())
                    }
                    4 => {
                        // jumps inside the operand of a jump
                        let h = self.hole(cx);
                        format!(" {{ {h} {} }}", self.t())
                    }
                    _ => String::new(), // unit value
                }
            }
        }
    }

    // ---- statement-level holes

    fn targets(&self, cx: &Ctx) -> Vec<usize> {
        // indices of loops that can be targeted
        (0..cx.brk.len())
            .filter(|&i| {
                (i + 1 == cx.brk.len() && !cx.no_plain)
                    || cx.brk[i].label.is_some()
            })
            .collect()
    }

    /// A statement that may contain jumps, in any of the statement/expression carriers.
    fn hole(&mut self, cx: &Ctx) -> String {
        #[derive(Clone, Copy)]
        enum O {
            Ev,
            Ret,
            Ret2,
            RetOp(usize),
            NeverRet,
            NeverBreak,
            LetElseRet,
            Try,
            TryTry,
            TryHole,
            TryMac,
            Break(usize, bool),
            MatchBreak(usize, bool),
            Continue(usize, bool),
            Carrier(usize),
            Barrier(usize),
            InnerLoop(usize),
            Closure,
        }
        let mut o: Vec<(usize, O)> = vec![(0, O::Ev)];
        match cx.ret {
            Ret::Val(_) => {
                o.push((1, O::Ret));
                if self.p == Profile::Return {
                    o.push((1, O::LetElseRet));
                    o.push((1, O::Ret2));
                    o.push((1, O::NeverRet));
                    for i in 0..RETS.len() {
                        o.push((1, O::RetOp(i)));
                    }
                }
            }
            Ret::Opt | Ret::Res(_) if self.p == Profile::Diverge => o.push((1, O::Ret)),
            _ => {}
        }
        if cx.try_.is_some() {
            o.push((1, O::Try));
            o.push((1, O::TryTry));
            o.push((1, O::TryHole));
            o.push((1, O::TryMac));
        }
        for i in self.targets(cx) {
            let inner = i + 1 == cx.brk.len();
            if inner && !cx.no_plain {
                o.push((1, O::Break(i, false)));
                if self.p == Profile::Loop {
                    o.push((1, O::MatchBreak(i, false)));
                    o.push((1, O::Continue(i, false)));
                    o.push((1, O::NeverBreak));
                }
            }
            if cx.brk[i].label.is_some() {
                o.push((1, O::Break(i, true)));
                if self.p == Profile::Loop {
                    o.push((1, O::Continue(i, true)));
                }
            }
        }
        if matches!(self.p, Profile::Return | Profile::Try | Profile::Loop) {
            for i in 0..CARRIERS.len() {
                o.push((1, O::Carrier(i)));
            }
            for i in 0..12 {
                o.push((1, O::Barrier(i)));
            }
            for i in 0..6 {
                o.push((1, O::InnerLoop(i)));
            }
            o.push((1, O::Closure));
        }
        match self.pick(&o) {
            O::Ev => {
                let n = self.n();
                format!("ev({n});")
            }
            O::Ret => {
                let b = self.b();
                let v = self.ret(cx);
                format!("if {b} {{ return{v}; }}")
            }
            O::Ret2 => {
                let n = self.n();
                let (v, w) = (self.ret(cx), self.ret(cx));
                format!("match s3({n}) {{ 0 => return{v}, 1 => {{ return{w} }} _ => {{}} }}")
            }
            O::NeverRet => format!("if {} {{ #[never] return die!(); }}", self.b()),
            O::NeverBreak => {
                let b = self.b();
                match cx.brk.last().unwrap().val {
                    Val::Unit => format!("if {b} {{ #[never] break; }}"),
                    _ => format!("if {b} {{ #[never] break die!(); }}"),
                }
            }
            O::RetOp(i) => {
                let v = self.ret(cx);
                self.fill(RETS[i], &format!("return{v}"))
            }
            O::LetElseRet => {
                let t = self.newtag();
                let v = self.ret(cx);
                format!("let Some(_) = o::<{t}>() else {{ return{v} }};")
            }
            O::Try => {
                self.wrap(cx.try_.unwrap());
                let t = self.newtag();
                format!("use_x::<{t}>(r::<{t}>()?);")
            }
            O::TryTry => {
                self.wrap(cx.try_.unwrap());
                self.wrap(cx.try_.unwrap());
                let (t, u) = (self.newtag(), self.newtag());
                format!("use_x::<{t}>(rr::<{t}, {u}>()??);")
            }
            O::TryHole => {
                // `?` whose operand contains further jumps
                self.wrap(cx.try_.unwrap());
                let t = self.newtag();
                let h = self.hole(cx);
                format!("use_x::<{t}>({{ {h} r::<{t}>() }}?);")
            }
            O::TryMac => {
                self.wrap(cx.try_.unwrap());
                let t = self.newtag();
                let m = if self.ch.choose(2) == 0 { "same" } else { "marker" };
                format!("use_x::<{t}>(other::{m}!(r::<{t}>())?);")
            }
            O::Break(i, l) => {
                let b = self.b();
                let x = self.brk(cx, i, l);
                format!("if {b} {{ {x}; }}")
            }
            O::MatchBreak(i, l) => {
                let n = self.n();
                let x = self.brk(cx, i, l);
                let m = self.n();
                format!("match s2({n}) {{ 0 => {x}, _ => ev({m}) }}")
            }
            O::Continue(i, l) => {
                let b = self.b();
                let l = if l { format!(" '{}", cx.brk[i].label.as_ref().unwrap()) } else { String::new() };
                format!("if {b} {{ continue{l}; }}")
            }
            O::Carrier(i) => self.carrier(i, cx),
            O::Barrier(i) => self.barrier(i, cx),
            O::InnerLoop(i) => self.inner_loop(i, cx),
            O::Closure => {
                // closure whose body holds arbitrary jumps of its own
                let tag = self.newtag();
                let inner = Ctx { ret: Ret::Val(Val::Typed(tag)), try_: None, brk: vec![], no_plain: false };
                let h = self.hole(&inner);
                let n = self.newtag();
                format!("let c{n} = || {{ {h} t::<{tag}>() }}; use_::<{tag}>(c{n}());")
            }
        }
    }

    fn ret(&mut self, cx: &Ctx) -> String {
        match &cx.ret {
            Ret::Val(v) => self.val(v, cx),
            Ret::Opt => " None".into(),
            Ret::Res(n) => format!(" Err(t::<{n}>())"),
            Ret::No => unreachable!(),
        }
    }

    fn brk(&mut self, cx: &Ctx, i: usize, labelled: bool) -> String {
        let b = &cx.brk[i];
        let l = if labelled { format!(" '{}", b.label.as_ref().unwrap()) } else { String::new() };
        let v = self.val(&b.val.clone(), cx);
        format!("break{l}{v}")
    }

    fn carrier(&mut self, i: usize, cx: &Ctx) -> String {
        let (tpl, kind) = CARRIERS[i];
        let mut cx = cx.clone();
        match kind {
            'w' | 'z' => cx.no_plain = true,
            // `break` inside this carrier's body would target the carrier's own loop
            'l' => cx.brk.push(Brk { label: None, val: Val::Unit }),
            _ => {}
        }
        let h = self.hole(&cx);
        self.fill(tpl, &h)
    }

    /// fill in a template
    fn fill(&mut self, tpl: &str, h: &str) -> String {
        let mut s = String::new();
        let mut tag = None;
        for c in tpl.chars() {
            match c {
                '@' => s.push_str(h),
                '#' => s.push_str(&self.n().to_string()),
                '$' => {
                    let t = *tag.get_or_insert_with(|| {
                        self.tag += 1;
                        self.tag
                    });
                    s.push_str(&t.to_string())
                }
                c => s.push(c),
            }
        }
        s
    }

    /// Inner bodies whose own return/?/break must be left alone.
    fn barrier(&mut self, i: usize, _cx: &Ctx) -> String {
        let (b1, b2) = (self.b(), self.b());
        let t = self.newtag();
        let n = self.newtag();
        match i {
            0 => format!("let c{n} = || {{ if {b1} {{ return t::<{t}>(); }} t::<{t}>() }}; use_::<{t}>(c{n}());"),
            1 => format!(
                "use_::<{t}>(block_on(async {{ if {b1} {{ return t::<{t}>(); }} t::<{t}>() }}));"
            ),
            2 => format!(
                "fn g{n}() -> T<{t}> {{ if {b1} {{ return t::<{t}>(); }} t::<{t}>() }} use_::<{t}>(g{n}());"
            ),
            3 => format!(
                "let c{n} = || -> Result<X<{t}>, T<{t}>> {{ let v = r::<{t}>()?; Ok(v) }}; sink(c{n}());"
            ),
            4 => format!(
                "sink(block_on(async {{ let v = r::<{t}>()?; Ok::<X<{t}>, T<{t}>>(v) }}));"
            ),
            5 => format!(
                "fn g{n}() -> Result<X<{t}>, T<{t}>> {{ if {b1} {{ return r::<{t}>(); }} Ok(r::<{t}>()?) }} sink(g{n}());"
            ),
            6 => format!("use_::<{t}>(loop {{ if {b1} {{ break t::<{t}>(); }} break t::<{t}>(); }});"),
            7 => format!(
                "use_::<{t}>('q: loop {{ loop {{ if {b1} {{ break 'q t::<{t}>(); }} break; }} break t::<{t}>(); }});"
            ),
            8 => format!(
                "use_::<{t}>('q: {{ if {b1} {{ break 'q t::<{t}>(); }} t::<{t}>() }});"
            ),
            9 => format!(
                "use_::<{t}>((|| loop {{ if {b1} {{ break t::<{t}>(); }} if {b2} {{ return t::<{t}>(); }} }})());"
            ),
            10 => format!(
                "use_::<{t}>(block_on(async move {{ loop {{ if {b1} {{ break t::<{t}>(); }} if {b2} {{ return t::<{t}>(); }} }} }}));"
            ),
            _ => format!(
                "let c{n} = || {{ let d = || {{ if {b1} {{ return t::<{t}>(); }} t::<{t}>() }}; let v = d(); if {b2} {{ return v; }} v }}; use_::<{t}>(c{n}());"
            ),
        }
    }

    fn inner_loop(&mut self, i: usize, cx: &Ctx) -> String {
        let mut cx = cx.clone();
        cx.no_plain = false;
        let label = |g: &mut Self| {
            let n = g.n();
            format!("l{n}")
        };
        match i {
            0 => {
                cx.brk.push(Brk { label: None, val: Val::Unit });
                let h = self.hole(&cx);
                format!("loop {{ {h} break; }}")
            }
            1 => {
                let l = label(self);
                cx.brk.push(Brk { label: Some(l.clone()), val: Val::Unit });
                let h = self.hole(&cx);
                format!("'{l}: loop {{ {h} break '{l}; }}")
            }
            2 => {
                cx.brk.push(Brk { label: None, val: Val::Unit });
                let b = self.b();
                let h = self.hole(&cx);
                format!("while {b} {{ {h} break; }}")
            }
            3 => {
                cx.brk.push(Brk { label: None, val: Val::Unit });
                let n = self.n();
                let h = self.hole(&cx);
                format!("for _ in it({n}) {{ {h} }}")
            }
            5 => {
                // inner loop or block reusing (shadowing) the label of the innermost labelled loop
                let l = cx.brk.iter().rev().find_map(|b| b.label.clone()).unwrap_or("s".into());
                for b in &mut cx.brk {
                    if b.label.as_ref() == Some(&l) {
                        b.label = None;
                    }
                }
                let t = self.newtag();
                let block = self.ch.choose(2) == 1;
                if block {
                    // an unlabelled break or continue is not allowed inside a labelled block
                    cx.no_plain = true;
                    let b = self.b();
                    let h = self.hole(&cx);
                    return format!("use_::<{t}>('{l}: {{ {h} if {b} {{ break '{l} t::<{t}>(); }} t::<{t}>() }});");
                }
                cx.brk.push(Brk { label: Some(l.clone()), val: Val::Typed(t) });
                let h = self.hole(&cx);
                format!("use_::<{t}>('{l}: loop {{ {h} break '{l} t::<{t}>(); }});")
            }
            _ => {
                // inner loop with typed value
                let t = self.newtag();
                cx.brk.push(Brk { label: None, val: Val::Typed(t) });
                let h = self.hole(&cx);
                format!("use_::<{t}>(loop {{ {h} break t::<{t}>(); }});")
            }
        }
    }

    // ---- branching expressions

    fn cond(&mut self, cx: &Ctx) -> String {
        if self.p == Profile::Return && self.fuel > 0 && self.ch.choose(2) == 1 {
            let h = self.hole(cx);
            return format!("{{ {h} {} }}", self.b());
        }
        if self.p == Profile::Branch {
            match self.pick(&[(0, 0), (1, 1), (1, 2)]) {
                0 => self.b(),
                1 => {
                    let n = self.n();
                    format!("{{ ev({n}); {} }}", self.b())
                }
                _ => {
                    let t = self.newtag();
                    format!("let Some(_) = o::<{t}>()")
                }
            }
        } else {
            self.b()
        }
    }

    /// an expression whose branches are wrapped by frame `f` (cost 1)
    fn branching(&mut self, f: usize, cx: &Ctx) -> String {
        let mut o: Vec<(usize, u32)> = vec![(0, 0), (0, 1)];
        let rich = matches!(self.p, Profile::Branch);
        o.extend_from_slice(&[(1, 2), (1, 3)]);
        if rich || matches!(self.p, Profile::Nested | Profile::Diverge) {
            o.extend_from_slice(&[(1, 4), (1, 6)]);
        }
        if rich {
            o.extend_from_slice(&[(1, 5), (1, 7), (1, 10), (1, 12)]);
            if self.frames[f].method_ok {
                o.push((1, 8));
            }
        }
        if matches!(self.p, Profile::Diverge) {
            o = vec![(0, 2), (0, 3), (1, 0), (1, 1), (1, 4), (1, 6)];
        }
        if matches!(self.p, Profile::Loop) {
            o = vec![(0, 9), (0, 11), (1, 0), (1, 1), (1, 4)];
        } else if rich || matches!(self.p, Profile::Nested | Profile::Multi) {
            o.push((1, 9));
        }
        if self.p == Profile::Mix {
            o = vec![(0, 0), (0, 1), (1, 4), (1, 6), (1, 9)];
        }
        match self.pick(&o) {
            0 => {
                let c = self.cond(cx);
                let (x, y) = (self.bv(f, cx), self.bv(f, cx));
                format!("if {c} {{ {x} }} else {{ {y} }}")
            }
            1 => {
                let n = self.n();
                let (x, y) = (self.arm("0", f, cx), self.arm("_", f, cx));
                format!("match s2({n}) {{ {x} {y} }}")
            }
            2 => {
                let (c, d) = (self.cond(cx), self.cond(cx));
                let (x, y, z) = (self.bv(f, cx), self.bv(f, cx), self.bv(f, cx));
                format!("if {c} {{ {x} }} else if {d} {{ {y} }} else {{ {z} }}")
            }
            3 => {
                let n = self.n();
                let (x, y, z) = (self.arm("0", f, cx), self.arm("1", f, cx), self.arm("_", f, cx));
                format!("match s3({n}) {{ {x} {y} {z} }}")
            }
            4 => {
                let s = if rich && self.fuel > 0 && self.ch.choose(2) == 1 {
                    let n = self.n();
                    format!("ev({n}); let _x = 1; ")
                } else {
                    String::new()
                };
                let x = self.branching(f, cx);
                format!("{{ {s}{x} }}")
            }
            5 => format!("unsafe {{ {} }}", self.branching(f, cx)),
            6 => format!("({})", self.branching(f, cx)),
            7 => {
                let x = self.branching(f, cx);
                let n = self.n();
                format!("{x}.id({n})")
            }
            8 => {
                let x = self.branching(f, cx);
                let n = self.n();
                format!("{x}.m({n})")
            }
            12 => {
                let n = self.n();
                self.wrap(f);
                let (b, t) = (self.b(), self.t());
                let m = self.frames[f].marker.clone();
                self.frames[f].method_ok = false;
                let x = self.branching(f, cx);
                format!("'a{n}: {{ if {b} {{ break 'a{n} {m}!({t}); }} {x} }}")
            }
            10 => {
                // match with guard, binding and block scrutinee
                let n = self.n();
                let t = self.newtag();
                let b = self.b();
                let x = self.arm_pat("Some(_)", Some(&b), f, cx);
                let y = self.arm_pat("None | Some(_)", None, f, cx);
                format!("match {{ ev({n}); o::<{t}>() }} {{ {x} {y} }}")
            }
            k => {
                // loop
                let l = if k == 11 {
                    let n = self.n();
                    Some(format!("a{n}"))
                } else {
                    None
                };
                let mut cx = cx.clone();
                cx.no_plain = false;
                cx.brk.push(Brk { label: l.clone(), val: Val::Wrap(f) });
                let i = cx.brk.len() - 1;
                let pre = l.as_ref().map_or(String::new(), |l| format!("'{l}: "));
                let mut s = String::new();
                let holes = if self.p == Profile::Loop { 1 + (self.fuel > 1) as usize } else { 1 };
                for _ in 0..holes {
                    s.push_str(&self.hole(&cx));
                    s.push(' ');
                }
                let lab = l.is_some() && self.ch.choose(2) == 1;
                if self.p == Profile::Loop && (l.is_some() || self.ch.choose(2) == 0) {
                    let b = self.b();
                    self.wrap(f);
                    s.push_str(&format!("if {b} {{ break {}; }} ", self.t()));
                }
                let x = self.brk(&cx, i, lab);
                match self.ch.choose(2) {
                    0 => format!("{pre}loop {{ {s}{x}; }}"),
                    _ => format!("{pre}loop {{ {s}{x} }}"),
                }
            }
        }
    }

    /// contents of a `{}` branch
    fn bv(&mut self, f: usize, cx: &Ctx) -> String {
        #[derive(Clone, Copy)]
        enum O {
            T,
            Leaf,
            EvLeaf,
            Unit,
            Empty,
            Div,
            Never,
            Nested,
            NestedLet,
            NestedStmtsExpr,
            NestedDeep,
            Marker,
            HoleLeaf,
            Child,
            Near,
        }
        let mut o = vec![(0, O::T)];
        match self.p {
            Profile::Branch => o.extend_from_slice(&[(1, O::Leaf), (1, O::EvLeaf), (1, O::Unit), (1, O::Empty)]),
            Profile::Diverge => o.extend_from_slice(&[(1, O::Div), (1, O::Never), (1, O::EvLeaf), (1, O::Near)]),
            Profile::Nested => o.extend_from_slice(&[
                (1, O::Nested),
                (1, O::NestedLet),
                (1, O::NestedStmtsExpr),
                (1, O::NestedDeep),
                (1, O::Div),
                (1, O::Leaf),
            ]),
            Profile::Marker => o.extend_from_slice(&[(1, O::Marker), (1, O::Leaf)]),
            Profile::Return => o.extend_from_slice(&[(1, O::HoleLeaf)]),
            Profile::Loop | Profile::Try => {}
            Profile::Multi => o.extend_from_slice(&[(1, O::Child), (1, O::Leaf)]),
            Profile::Mix => o.extend_from_slice(&[
                (1, O::Nested),
                (1, O::NestedLet),
                (2, O::NestedDeep),
                (1, O::Div),
                (1, O::Never),
                (1, O::Marker),
                (1, O::HoleLeaf),
                (1, O::Child),
            ]),
        }
        match self.pick(&o) {
            O::T => {
                self.wrap(f);
                self.t()
            }
            O::Leaf => {
                self.wrap(f);
                self.leaf()
            }
            O::EvLeaf => {
                self.wrap(f);
                let n = self.n();
                format!("ev({n}); {}", self.t())
            }
            O::Unit => {
                self.wrap(f);
                let n = self.n();
                format!("ev({n});")
            }
            O::Empty => {
                self.wrap(f);
                String::new()
            }
            O::Div => self.diverge(f, cx, true),
            O::Never => match self.pick(&[(0, 0), (1, 1), (1, 2), (1, 3)]) {
                0 => format!("#[never] {}", self.never_expr()),
                // statement macros
                1 => format!("ev({}); #[never] die!();", self.n()),
                2 => "#[never] die! {}".into(),
                _ => format!("#[never] log! {{ {} }} #[never] die!{{}}", self.n()),
            },
            O::Nested => {
                format!("#[nested] {}", self.branching(f, cx))
            }
            O::NestedLet => {
                let n = self.n();
                format!("#[nested] let v{n} = {}; v{n}", self.branching(f, cx))
            }
            O::NestedStmtsExpr => {
                let n = self.n();
                format!("ev({n}); #[nested] {}", self.branching(f, cx))
            }
            O::NestedDeep => {
                // `#[nested]` below an expression that is not itself nested
                let n = self.n();
                let k = self.ch.choose(4);
                let other = match self.ch.choose(2) {
                    0 => "panic!()".to_string(),
                    _ => {
                        self.wrap(f);
                        let m = self.frames[f].marker.clone();
                        format!("{m}!({})", self.t())
                    }
                };
                let x = self.branching(f, cx);
                match k {
                    0 => format!("match s2({n}) {{ #[nested] 0 => {x}, _ => {other}, }}"),
                    1 => format!("if b({n}) {{ #[nested] {x} }} else {{ {other} }}"),
                    2 => format!("match s2({n}) {{ 0 => {{ #[nested] let v{n} = {x}; v{n} }} _ => {other}, }}"),
                    _ => format!("let v{n} = match s2({n}) {{ 0 => {other}, #[nested] _ => {{ {x} }} }}; v{n}"),
                }
            }
            O::Marker => {
                let m = self.frames[f].marker.clone();
                self.wrap(f);
                match self.pick(&[(0, 0), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6)]) {
                    0 => format!("{m}!({})", self.t()),
                    4 => format!("{m}!{{ {} }}", self.leaf()),
                    5 => {
                        let n = self.n();
                        format!("ev({n}); {m}! {{ {} }}", self.t())
                    }
                    6 => format!("{m}![{}]", self.t()),
                    1 => {
                        let n = self.n();
                        format!("ev({n}); {m}!({})", self.leaf())
                    }
                    2 => format!("({m}!({}))", self.t()),
                    _ => format!("{{ {m}!({}) }}", self.t()),
                }
            }
            O::HoleLeaf => {
                self.wrap(f);
                let h = self.hole(cx);
                format!("{h} {}", self.t())
            }
            O::Child => {
                self.wrap(f);
                let c = self.child(cx);
                format!("{c} {}", self.t())
            }
            O::Near => self.near(f, cx),
        }
    }

    fn arm(&mut self, pat: &str, f: usize, cx: &Ctx) -> String {
        self.arm_pat(pat, None, f, cx)
    }

    fn arm_pat(&mut self, pat: &str, guard: Option<&str>, f: usize, cx: &Ctx) -> String {
        let g = guard.map_or(String::new(), |g| format!(" if {g}"));
        #[derive(Clone, Copy)]
        enum O {
            T,
            Leaf,
            Block,
            UnitBlock,
            Unit,
            NestedArm,
            NestedExpr,
            NeverArm,
            DivExpr,
            Marker,
            Near,
            Attr,
        }
        let mut o = vec![(0, O::T)];
        match self.p {
            Profile::Branch => o.extend_from_slice(&[(1, O::Leaf), (0, O::Block), (1, O::UnitBlock), (1, O::Unit), (1, O::Attr)]),
            Profile::Diverge => {
                o.extend_from_slice(&[(1, O::DivExpr), (1, O::NeverArm), (0, O::Block), (1, O::Near)])
            }
            Profile::Nested => {
                o.extend_from_slice(&[(1, O::NestedArm), (1, O::NestedExpr), (0, O::Block)])
            }
            Profile::Marker => o.extend_from_slice(&[(1, O::Marker), (0, O::Block)]),
            Profile::Mix => o.extend_from_slice(&[
                (1, O::NestedArm),
                (1, O::NestedExpr),
                (1, O::NeverArm),
                (1, O::DivExpr),
                (1, O::Marker),
                (0, O::Block),
            ]),
            _ => o.push((0, O::Block)),
        }
        match self.pick(&o) {
            O::T => {
                self.wrap(f);
                format!("{pat}{g} => {},", self.t())
            }
            O::Leaf => {
                self.wrap(f);
                format!("{pat}{g} => {},", self.leaf())
            }
            O::Attr => {
                self.wrap(f);
                format!("#[allow(unused)] {pat}{g} => #[allow(unused)] {{ {} }}", self.t())
            }
            O::Block => {
                let x = self.bv(f, cx);
                format!("{pat}{g} => {{ {x} }}")
            }
            O::UnitBlock => {
                self.wrap(f);
                format!("{pat}{g} => {{}}")
            }
            O::Unit => {
                self.wrap(f);
                let n = self.n();
                format!("{pat}{g} => ev({n}),")
            }
            O::NestedArm => format!("#[nested] {pat}{g} => {},", self.branching(f, cx)),
            O::NestedExpr => format!("{pat}{g} => #[nested] {},", self.branching(f, cx)),
            O::NeverArm => format!("#[never] {pat}{g} => {},", self.never_expr()),
            O::DivExpr => format!("{pat}{g} => {},", self.diverge(f, cx, false)),
            O::Near => format!("{pat}{g} => {},", self.near(f, cx)),
            O::Marker => {
                let m = self.frames[f].marker.clone();
                self.wrap(f);
                format!("{pat}{g} => {m}!({}),", self.t())
            }
        }
    }

    fn never_expr(&mut self) -> String {
        let n = self.n();
        match self.pick(&[(0, 0), (0, 3), (1, 1), (1, 2)]) {
            0 => "panic!()".into(),
            3 => "die!()".into(),
            1 => format!("loop {{ ev({n}); panic!() }}"),
            _ => format!("if b({n}) {{ panic!() }} else {{ unreachable!() }}"),
        }
    }

    /// a branch that yields no value; `blk`: in block-content position
    fn diverge(&mut self, f: usize, cx: &Ctx, blk: bool) -> String {
        #[derive(Clone, Copy)]
        enum O {
            Panic,
            Unreachable,
            StdPanic,
            Ret,
            Break,
            Continue,
            NoneQ,
            StdNoneQ,
            ErrQ,
            StdErrQ,
            Marker,
            Block,
            Paren,
            AllMatch,
            BlockSemi,
            BlockEv,
            BlockLet,
            BlockItem,
            UnsafeB,
        }
        let mut o = vec![(0, O::Panic), (0, O::Unreachable)];
        if self.p == Profile::Diverge {
            o.extend_from_slice(&[(0, O::StdPanic)]);
        }
        match cx.ret {
            Ret::Val(_) => o.push((0, O::Ret)),
            Ret::Opt => o.extend_from_slice(&[(0, O::Ret), (0, O::NoneQ), (0, O::StdNoneQ)]),
            Ret::Res(_) => o.extend_from_slice(&[(0, O::Ret), (0, O::ErrQ), (0, O::StdErrQ)]),
            Ret::No => {}
        }
        if cx.brk.last().is_some_and(|b| matches!(b.val, Val::Unit)) {
            o.extend_from_slice(&[(0, O::Break), (0, O::Continue)]);
        }
        if self.p == Profile::Diverge {
            o.extend_from_slice(&[
                (0, O::Marker),
                (1, O::Paren),
                (1, O::AllMatch),
                (1, O::Block),
                (1, O::UnsafeB),
                (1, O::BlockSemi),
                (1, O::BlockEv),
                (1, O::BlockLet),
                (1, O::BlockItem),
            ]);
        }
        let _ = blk;
        match self.pick(&o) {
            O::Panic => "panic!()".into(),
            O::Unreachable => "unreachable!()".into(),
            O::StdPanic => {
                if self.ch.choose(2) == 0 { "std::panic!()".into() } else { "core::unreachable!()".into() }
            }
            O::Ret => format!("return{}", self.ret(cx)),
            O::Break => {
                let i = cx.brk.len() - 1;
                let l = cx.brk[i].label.is_some() && self.ch.choose(2) == 1;
                self.brk(cx, i, l)
            }
            O::Continue => "continue".into(),
            O::NoneQ => "None?".into(),
            O::StdNoneQ => "std::option::Option::None?".into(),
            O::ErrQ => {
                let Ret::Res(n) = cx.ret else { unreachable!() };
                format!("Err(t::<{n}>())?")
            }
            O::StdErrQ => {
                let Ret::Res(n) = cx.ret else { unreachable!() };
                format!("core::result::Result::Err(t::<{n}>())?")
            }
            O::Marker => {
                self.wrap(f);
                let m = self.frames[f].marker.clone();
                match self.pick(&[(0, 0), (1, 1)]) {
                    0 => format!("{m}!({})", self.t()),
                    _ => format!("{m}! {{ {} }}", self.t()),
                }
            }
            O::Block => format!("{{ {} }}", self.diverge(f, cx, true)),
            O::UnsafeB => format!("unsafe {{ {} }}", self.diverge(f, cx, true)),
            O::Paren => format!("({})", self.diverge(f, cx, false)),
            O::AllMatch => {
                let n = self.n();
                let (x, y) = (self.diverge(f, cx, false), self.diverge(f, cx, false));
                format!("match s2({n}) {{ 0 => {x}, _ => {y} }}")
            }
            O::BlockSemi => {
                let d = self.strict_div(cx);
                format!("{{ {d}; }}")
            }
            O::BlockEv => {
                let n = self.n();
                format!("{{ ev({n}); {} }}", self.diverge(f, cx, true))
            }
            O::BlockLet => {
                let d = self.strict_div(cx);
                format!("{{ let _ = {d}; }}")
            }
            O::BlockItem => {
                let d = self.strict_div(cx);
                let n = self.n();
                format!("{{ {d}; struct Z{n}; }}")
            }
        }
    }

    /// a branch that yields a value although it looks like one that does not
    fn near(&mut self, f: usize, cx: &Ctx) -> String {
        self.wrap(f);
        let mut o = vec![(0, 0), (0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0, 6), (0, 12)];
        match cx.ret {
            Ret::Opt => o.extend_from_slice(&[(0, 7), (0, 8), (0, 13), (0, 14), (0, 17)]),
            Ret::Res(_) => o.extend_from_slice(&[(0, 9), (0, 10), (0, 11), (0, 15), (0, 16), (0, 18)]),
            _ => {}
        }
        let n = self.newtag();
        let t = format!("t::<{n}>()");
        let e = self.n();
        match self.pick(&o) {
            // macros that only share the name
            0 => format!("other::panic!({t})"),
            1 => format!("other::unreachable!({t})"),
            // jumps that stay inside
            2 => format!("(|| {{ return {t}; }})()"),
            3 => format!("{{ fn g{e}() -> T<{n}> {{ return {t}; }} g{e}() }}"),
            4 => format!("loop {{ break {t}; }}"),
            5 => format!("{{ if b({e}) {{ panic!(); }} {t} }}"),
            6 => format!("match s2({e}) {{ 0 => panic!(), _ => {t} }}"),
            12 => format!("if b({e}) {{ panic!() }} else {{ {t} }}"),
            7 => format!("Some({t})?"),
            8 => "fns::None?".into(),
            17 => "fns::option::Option::None?".into(),
            18 => format!("fns::result::Result::Err({t})?"),
            13 => format!("std::option::Option::Some({t})?"),
            14 => format!("Option::<T<{n}>>::Some({t})?"),
            15 => format!("core::result::Result::Ok::<T<{n}>, T<903>>({t})?"),
            16 => format!("Result::<T<{n}>, T<903>>::Ok({t})?"),
            9 => format!("Ok::<T<{n}>, T<903>>({t})?"),
            10 => format!("fns::Err({t})?"),
            _ => format!("{{ let v = Ok::<T<{n}>, T<903>>({t})?; v }}"),
        }
    }

    /// diverging expressions of type `!` (usable before a semicolon without leaving a `()` value)
    fn strict_div(&mut self, cx: &Ctx) -> String {
        let mut o = vec![(0, 0), (0, 1)];
        if !matches!(cx.ret, Ret::No) {
            o.push((0, 2));
        }
        if cx.brk.last().is_some_and(|b| matches!(b.val, Val::Unit)) {
            o.extend_from_slice(&[(0, 3), (0, 4)]);
        }
        match self.pick(&o) {
            0 => "panic!()".into(),
            1 => "unreachable!()".into(),
            2 => format!("return{}", self.ret(cx)),
            3 => self.brk(cx, cx.brk.len() - 1, false),
            _ => "continue".into(),
        }
    }

    // ---- annotated children (profile Multi)

    /// a statement carrying its own annotation; returns statements
    fn child(&mut self, cx: &Ctx) -> String {
        let parent = self.cur;
        if let Some(p) = self.frames.get_mut(parent) {
            p.has_child = true;
        }
        let f = self.frame("Debug");
        self.cur = f;
        let mut cx = cx.clone();
        let k = if self.p == Profile::Mix {
            self.pick(&[(0, 0), (0, 1), (0, 2)])
        } else {
            self.pick(&[(0, 0), (0, 1), (0, 2), (0, 3), (0, 4)])
        };
        let s = match k {
            0 => {
                let n = self.n();
                let x = self.branching(f, &cx);
                format!("#[auto_enum(Debug)] let x{n} = {x}; sink(x{n});")
            }
            1 => {
                let x = self.branching(f, &cx);
                format!("sink(#[auto_enum(Debug)] {x});")
            }
            2 => {
                // closure with its own returns
                cx.ret = Ret::Val(Val::Wrap(f));
                cx.brk.clear();
                let n = self.n();
                let h = self.hole(&cx);
                let x = self.branching(f, &cx);
                format!("#[auto_enum(Debug)] let x{n} = || {{ {h} {x} }}; sink(x{n}());")
            }
            3 => {
                // textually identical twins in one scope
                let n = self.n();
                let x = self.branching(f, &cx);
                let twins = self.frames[f..].to_vec();
                self.frames.extend(twins);
                format!(
                    "#[auto_enum(Debug)] let x{n} = {x}; sink(x{n}); #[auto_enum(Debug)] let x{n} = {x}; sink(x{n});"
                )
            }
            _ => {
                // custom marker in the child, semicolon-terminated statement
                let n = self.n();
                self.frames[f].marker = format!("mk{n}");
                self.frames[f].wraps += 2;
                let (a, b, c) = (self.b(), self.t(), self.t());
                format!(
                    "let x{n}; #[auto_enum(Debug, marker = mk{n})] {{ if {a} {{ x{n} = mk{n}!({b}); }} else {{ x{n} = mk{n}!({c}); }} }}; sink(x{n});"
                )
            }
        };
        self.cur = parent;
        s
    }

    // ---- whole programs

    fn program(&mut self) -> String {
        match self.p {
            Profile::Branch => self.p_branch(),
            Profile::Loop => self.p_branch(),
            Profile::Return => self.p_return(),
            Profile::Try => self.p_try(),
            Profile::Diverge => self.p_diverge(),
            Profile::Nested => self.p_nested(),
            Profile::Marker => self.p_marker(),
            Profile::Multi => self.p_multi(),
            Profile::Mix => self.p_mix(),
        }
    }

    fn nocx() -> Ctx {
        Ctx { ret: Ret::No, try_: None, brk: vec![], no_plain: false }
    }

    /// all positions an annotation may have
    fn p_branch(&mut self) -> String {
        let k = self.ch.choose(10);
        let f = self.frame("Debug");
        self.frames[f].method_ok = true;
        let cx = Self::nocx();
        let dummy = |g: &mut Self| {
            // outer empty #[auto_enum]
            let d = g.frame("");
            g.frames[d].has_child = true;
        };
        match k {
            0 => {
                let x = self.branching(f, &cx);
                format!("#[auto_enum(Debug)] fn f() -> impl Debug {{ {x} }} fn main_() {{ sink(f()); }}")
            }
            1 => {
                let x = self.branching(f, &cx);
                format!("fn main_() {{ #[auto_enum(Debug)] let x = {x}; sink(x); }}")
            }
            2 => {
                let x = self.branching(f, &cx);
                format!("fn f() -> impl Debug {{ #[auto_enum(Debug)] {x} }} fn main_() {{ sink(f()); }}")
            }
            3 => {
                let x = self.branching(f, &cx);
                format!("fn main_() {{ sink(#[auto_enum(Debug)] {x}); }}")
            }
            4 => {
                let x = self.branching(f, &cx);
                format!("fn main_() {{ #[auto_enum(Debug)] let x = || {x}; sink(x()); }}")
            }
            5 => {
                let x = self.branching(f, &cx);
                format!("fn main_() {{ let x = #[auto_enum(Debug)] |_y: i64| {{ ev(0); {x} }}; sink(x(1)); }}")
            }
            6 => {
                dummy(self);
                let x = self.branching(f, &cx);
                format!(
                    "#[auto_enum] fn f() -> impl Debug {{ #[auto_enum(Debug)] {x} }} fn main_() {{ sink(f()); }}"
                )
            }
            7 => {
                dummy(self);
                let x = self.branching(f, &cx);
                format!(
                    "#[auto_enum] fn f() -> impl Debug {{ ev(0); #[auto_enum(Debug)] let x = {x}; x }} fn main_() {{ sink(f()); }}"
                )
            }
            8 => {
                dummy(self);
                let x = self.branching(f, &cx);
                format!(
                    "#[auto_enum] fn main_() {{ #[auto_enum(Debug)] let x = || {x}; sink(x()); ev(0); }}"
                )
            }
            _ => {
                // statements before the tail, attributes, generics, arguments
                let x = self.branching(f, &cx);
                format!(
                    "#[allow(unused_variables)] #[auto_enum(Debug)] #[inline] pub fn f<'a, A: Clone + 'a>(_a: A, y: &'a i64) -> impl Debug where A: Debug {{ ev(0); let v = t::<900>(); use_::<900>(v); {x} }} fn main_() {{ sink(f(1, &2)); }}"
                )
            }
        }
    }

    fn p_return(&mut self) -> String {
        let k = self.ch.choose(5);
        let f = self.frame("Debug");
        let cx = Ctx { ret: Ret::Val(Val::Wrap(f)), ..Self::nocx() };
        let holes = 1 + self.ch.choose(2);
        let mut s = String::new();
        for _ in 0..holes {
            s.push_str(&self.hole(&cx));
            s.push(' ');
        }
        let tail = match self.pick(&[(0, 0), (0, 1), (0, 2), (0, 3)]) {
            0 => self.branching(f, &cx),
            1 => format!("return{};", self.ret(&cx)),
            2 => format!("return{}", self.ret(&cx)),
            _ => {
                self.wrap(f);
                format!("marker!({})", self.t())
            }
        };
        match k {
            0 => format!("#[auto_enum(Debug)] fn f() -> impl Debug {{ {s}{tail} }} fn main_() {{ sink(f()); }}"),
            1 => format!("fn main_() {{ #[auto_enum(Debug)] let x = || {{ {s}{tail} }}; sink(x()); }}"),
            2 => {
                let d = self.frame("");
                self.frames[d].has_child = true;
                format!("#[auto_enum] fn main_() {{ #[auto_enum(Debug)] let x = |_y: i64| {{ {s}{tail} }}; sink(x(1)); }}")
            }
            3 => format!("fn main_() {{ let x = #[auto_enum(Debug)] || {{ {s}{tail} }}; sink(x()); }}"),
            _ => format!(
                "fn main_() {{ #[auto_enum(Debug)] fn f() -> impl Debug {{ {s}{tail} }} sink(f()); }}"
            ),
        }
    }

    fn p_try(&mut self) -> String {
        let k = self.ch.choose(5);
        let f = self.frame("Debug");
        if k == 4 {
            return self.p_not_try(f);
        }
        let cx = Ctx { try_: Some(f), ..Self::nocx() };
        let holes = 2 + (self.fuel > 2) as usize;
        let mut s = String::new();
        for _ in 0..holes {
            s.push_str(&self.hole(&cx));
            s.push(' ');
        }
        // the tail of a `?`-analysed body is not parsed
        let tail = match self.pick(&[(0, 0), (0, 1), (0, 2), (1, 3), (1, 4)]) {
            0 => "Ok::<T<901>, _>(t::<901>())".to_string(),
            1 => {
                self.wrap(f);
                let (b, t) = (self.b(), self.newtag());
                format!("if {b} {{ Err(t::<{t}>())? }} else {{ Ok(t::<901>()) }}")
            }
            2 => {
                self.wrap(f);
                let t = self.newtag();
                format!("{{ let _y = r::<{t}>()?; Ok(t::<901>()) }}")
            }
            3 => {
                // explicit error through a marker
                self.wrap(f);
                let (n, t) = (self.n(), self.newtag());
                format!("match s2({n}) {{ 0 => Err(marker!(t::<{t}>())), _ => Ok(t::<901>()) }}")
            }
            _ => {
                let b = self.b();
                format!("if {b} {{ return Ok(t::<901>()); }} Ok(t::<901>())")
            }
        };
        // count only `?`, not markers
        let q = s.matches("?;").count() + s.matches("?)").count() + s.matches("??").count() + tail.matches('?').count();
        let _ = q;
        if self.frames[f].wraps - tail.matches("marker!").count() < 2 {
            self.skip = true;
        }
        match k {
            0 => format!("#[auto_enum(Debug)] fn f() -> Result<T<901>, impl Debug> {{ {s}{tail} }} fn main_() {{ sink(f()); }}"),
            1 => format!("fn main_() {{ #[auto_enum(Debug)] let x = || {{ {s}{tail} }}; sink(x()); }}"),
            2 => {
                let d = self.frame("");
                self.frames[d].has_child = true;
                format!("#[auto_enum] fn main_() {{ #[auto_enum(Debug)] let x = |_y: i64| {{ {s}{tail} }}; sink(x(1)); }}")
            }
            _ => format!("#[auto_enum(Debug)] fn f() -> core::result::Result<T<901>, impl Debug> {{ {s}{tail} }} fn main_() {{ sink(f()); }}"),
        }
    }

    /// functions whose `?` is none of the annotation's business
    fn p_not_try(&mut self, f: usize) -> String {
        // (return type, the payload that is an `impl Trait`, success)
        let (ty, pay, end) = *[
            ("alias::Res<T<901>, impl Debug>", "Err(@)", "Ok(t::<901>())"),
            ("alias::Result<T<901>, impl Debug>", "Err(@)", "Ok(t::<901>())"),
            ("alias::result::Result<T<901>, impl Debug>", "Err(@)", "Ok(t::<901>())"),
            ("alias::E1<impl Debug>", "Err(@)", "Ok(t::<901>())"),
            ("Result<T<901>, W<impl Debug>>", "Err(W { a: @ })", "Ok(t::<901>())"),
            ("Result<T<901>, (impl Debug)>", "Err(@)", "Ok(t::<901>())"),
            ("Result<impl Debug, T<903>>", "Ok(@)", "Err(t::<903>())"),
            ("Option<impl Debug>", "Some(@)", "None"),
            ("core::option::Option<impl Debug>", "Some(@)", "None"),
        ][self.ch.choose(9)..]
            .first()
            .unwrap();
        let mut s = String::new();
        for _ in 0..3 {
            let b = self.b();
            let t = self.newtag();
            let p = pay.replace('@', &format!("marker!(t::<{t}>())"));
            let q = match pay.as_bytes()[0] {
                b'E' => format!("use_x::<{t}>({p}?);"),
                b'O' => format!("use_x::<{t}>(Err(t::<903>())?);"),
                _ => format!("use_x::<{t}>(None?);"),
            };
            let marked = pay.as_bytes()[0] == b'E';
            s.push_str(&match self.pick(&[(0, 0), (0, 1), (1, 2), (1, 3)]) {
                0 => {
                    self.wrap(f);
                    format!("if {b} {{ return {p}; }} ")
                }
                1 => {
                    if marked {
                        self.wrap(f);
                    }
                    format!("if {b} {{ {q} }} ")
                }
                2 => format!("let c{t} = || -> Result<X<{t}>, T<{t}>> {{ let v = r::<{t}>()?; Ok(v) }}; sink(c{t}());"),
                _ => {
                    if marked {
                        self.wrap(f);
                    }
                    format!("match s2(70) {{ 0 => {{}} _ => {{ {q} }} }} ")
                }
            });
        }
        // (the type of the payload must be known)
        self.wrap(f);
        let p = pay.replace('@', &format!("marker!({})", self.t()));
        format!("#[auto_enum(Debug)] fn f() -> {ty} {{ {s} if b(80) {{ return {p}; }} {end} }} fn main_() {{ sink(f()); }}")
    }

    fn p_diverge(&mut self) -> String {
        let k = self.ch.choose(6);
        let f = self.frame("Debug");
        let mut cx = Self::nocx();
        match k {
            0 => {
                cx.ret = Ret::Val(Val::Wrap(f));
                let x = self.branching(f, &cx);
                format!("#[auto_enum(Debug)] fn f() -> impl Debug {{ {x} }} fn main_() {{ sink(f()); }}")
            }
            1 => {
                cx.ret = Ret::Val(Val::Typed(902));
                let x = self.branching(f, &cx);
                format!("fn f() -> T<902> {{ #[auto_enum(Debug)] let x = {x}; sink(x); t::<902>() }} fn main_() {{ use_::<902>(f()); }}")
            }
            2 => {
                cx.ret = Ret::Opt;
                let x = self.branching(f, &cx);
                format!("fn f() -> Option<T<902>> {{ #[auto_enum(Debug)] let x = {x}; sink(x); Some(t::<902>()) }} fn main_() {{ sink(f()); }}")
            }
            3 => {
                cx.ret = Ret::Res(903);
                let x = self.branching(f, &cx);
                format!("fn f() -> Result<T<902>, T<903>> {{ #[auto_enum(Debug)] let x = {x}; sink(x); Ok(t::<902>()) }} fn main_() {{ sink(f()); }}")
            }
            4 => {
                cx.brk.push(Brk { label: None, val: Val::Unit });
                let x = self.branching(f, &cx);
                format!("fn main_() {{ loop {{ #[auto_enum(Debug)] let x = {x}; sink(x); break; }} ev(0); }}")
            }
            _ => {
                cx.brk.push(Brk { label: Some("o".into()), val: Val::Unit });
                let x = self.branching(f, &cx);
                let d = self.frame("");
                self.frames[d].has_child = true;
                format!("#[auto_enum] fn main_() {{ 'o: for _ in it(0) {{ sink(#[auto_enum(Debug)] {x}); }} ev(0); }}")
            }
        }
    }

    fn p_nested(&mut self) -> String {
        let k = self.ch.choose(4);
        let f = self.frame("Debug");
        let mut cx = Self::nocx();
        match k {
            0 => {
                cx.ret = Ret::Val(Val::Wrap(f));
                let x = self.branching(f, &cx);
                format!("#[auto_enum(Debug)] fn f() -> impl Debug {{ {x} }} fn main_() {{ sink(f()); }}")
            }
            1 => {
                let x = self.branching(f, &cx);
                format!("fn main_() {{ #[auto_enum(Debug)] let x = {x}; sink(x); }}")
            }
            2 => {
                // nested let feeding the tail
                let x = self.branching(f, &cx);
                format!("#[auto_enum(Debug)] fn f() -> impl Debug {{ #[nested] let v = {x}; ev(0); v }} fn main_() {{ sink(f()); }}")
            }
            _ => {
                let x = self.branching(f, &cx);
                let d = self.frame("");
                self.frames[d].has_child = true;
                format!("#[auto_enum] fn f() -> impl Debug {{ #[auto_enum(Debug)] {x} }} fn main_() {{ sink(f()); }}")
            }
        }
    }

    fn p_marker(&mut self) -> String {
        let custom = self.ch.choose(2) == 1;
        let f = self.frame("Debug");
        let m = if custom { "mk".to_string() } else { "marker".to_string() };
        self.frames[f].marker = m.clone();
        let attr = if custom {
            if self.ch.choose(2) == 0 { "#[auto_enum(Debug, marker = mk)]" } else { "#[auto_enum(marker = mk, Debug)]" }
        } else {
            "#[auto_enum(Debug)]"
        };
        let mut cx = Self::nocx();
        match self.ch.choose(7) {
            0 => {
                cx.ret = Ret::Val(Val::Wrap(f));
                let h = self.hole(&cx);
                let x = match self.ch.choose(2) {
                    0 => self.branching(f, &cx),
                    _ => {
                        self.wrap(f);
                        match self.pick(&[(0, 0), (1, 1)]) {
                            0 => format!("{m}!({})", self.leaf()),
                            _ => format!("{m}! {{ {} }}", self.leaf()),
                        }
                    }
                };
                format!("{attr} fn f() -> impl Debug {{ {h} {x} }} fn main_() {{ sink(f()); }}")
            }
            1 => {
                let x = self.branching(f, &cx);
                format!("fn main_() {{ {attr} let x = {x}; sink(x); }}")
            }
            2 => {
                // unsupported statement kinds through markers only
                let (b, x, y) = (self.b(), self.leaf(), self.leaf());
                self.frames[f].wraps += 2;
                match self.ch.choose(4) {
                    0 => format!("fn main_() {{ let x; {attr} {{ x = if {b} {{ {m}!({x}) }} else {{ {m}!({y}) }}; }} sink(x); }}"),
                    1 => format!("fn main_() {{ {attr} sink(if {b} {{ {m}!({x}) }} else {{ {m}!({y}) }}); }}"),
                    2 => format!("fn main_() {{ {attr} let x = ((if {b} {{ {m}!({x}) }} else {{ {m}!({y}) }}), 1); sink(x); }}"),
                    _ => format!("fn f() -> impl Debug {{ {attr} Some(if {b} {{ {m}!({x}) }} else {{ {m}!({y}) }}) }} fn main_() {{ sink(f()); }}"),
                }
            }
            3 => {
                // Option<impl Trait>: only markers apply to the payload
                let n = self.n();
                let (x, y) = (self.leaf(), self.leaf());
                self.frames[f].wraps += 2;
                format!("{attr} fn f() -> Option<impl Debug> {{ match s3({n}) {{ 0 => return Some({m}!({x})), 1 => {{ return Some({m}!({y})); }} _ => {{}} }}; None }} fn main_() {{ sink(f()); }}")
            }
            4 => {
                // inner annotation; outer marker usable inside when custom, the default belongs to the innermost
                let n = self.n();
                let c = self.frame("Debug");
                self.frames[f].has_child = true;
                let (a, b, d, e) = (self.t(), self.t(), self.t(), self.t());
                self.frames[c].wraps += 2;
                self.frames[f].wraps += 2;
                if custom {
                    format!("{attr} fn f() -> impl Debug {{ #[auto_enum(Debug)] let y = match s3({n}) {{ 0 => return mk!({a}), 1 => marker!({b}), _ => {d} }}; sink(y); mk!({e}) }} fn main_() {{ sink(f()); }}")
                } else {
                    self.frames[c].marker = "inner".into();
                    format!("{attr} fn f() -> impl Debug {{ #[auto_enum(Debug, marker = inner)] let y = match s3({n}) {{ 0 => return {a}, 1 => inner!({b}), _ => {d} }}; sink(y); marker!({e}) }} fn main_() {{ sink(f()); }}")
                }
            }
            5 => {
                // macros of other names are left alone
                let n = self.n();
                let (x, y) = (self.t(), self.t());
                self.frames[f].wraps += 3;
                format!("fn main_() {{ {attr} let x = match s3({n}) {{ 0 => foreign!(7), 1 => {m}!({x}), _ => {y} }}; sink(x); }}")
            }
            _ => {
                // markers inside loops/closures
                let (b, x, y) = (self.b(), self.leaf(), self.leaf());
                self.frames[f].wraps += 2;
                format!("fn main_() {{ {attr} let x = {{ let c = || if {b} {{ {m}!({x}) }} else {{ {m}!({y}) }}; let r = c(); r }}; sink(x); }}")
            }
        }
    }

    /// everything inside everything: annotations whose branches hold nested, diverging, marked and
    /// returning branches and further annotations
    fn p_mix(&mut self) -> String {
        let k = self.ch.choose(7);
        if k == 6 {
            return self.p_look_alike();
        }
        let f = self.frame("Debug");
        self.cur = f;
        let attr = if self.ch.choose(2) == 0 {
            "#[auto_enum(Debug)]"
        } else {
            self.frames[f].marker = "mk".into();
            "#[auto_enum(Debug, marker = mk)]"
        };
        let mut cx = Self::nocx();
        if k < 4 {
            cx.ret = Ret::Val(Val::Wrap(f));
        }
        let s = match self.pick(&[(0, 0), (1, 1), (1, 2), (1, 3)]) {
            0 => String::new(),
            1 => self.child(&cx),
            3 if !matches!(cx.ret, Ret::No) => {
                let c = self.child(&cx);
                self.wrap(f);
                let (b, t) = (self.b(), self.t());
                format!("{c} if {b} {{ return {}!({t}); }}", self.frames[f].marker.clone())
            }
            _ if matches!(cx.ret, Ret::No) => {
                self.skip = true;
                String::new()
            }
            _ => self.hole(&cx),
        };
        let x = if k < 3 && self.ch.choose(2) == 1 {
            self.wrap(f);
            format!("{}!({})", self.frames[f].marker.clone(), self.t())
        } else {
            self.branching(f, &cx)
        };
        match k {
            0 => format!("{attr} fn f() -> impl Debug {{ {s} {x} }} fn main_() {{ sink(f()); }}"),
            1 => format!("fn main_() {{ {attr} let x = || {{ {s} {x} }}; sink(x()); }}"),
            2 => {
                let d = self.frame("");
                self.frames[d].has_child = true;
                format!("#[auto_enum] fn main_() {{ {attr} let x = |_y: i64| {{ {s} {x} }}; sink(x(1)); }}")
            }
            3 => format!("{attr} fn f() -> impl Debug {{ {s} #[nested] let v = {x}; ev(0); v }} fn main_() {{ sink(f()); }}"),
            4 => format!("fn main_() {{ {attr} let x = {{ {s} {x} }}; sink(x); }}"),
            _ => format!("fn main_() {{ sink({attr} {{ {s} {x} }}); }}"),
        }
    }

    /// annotations inside each other that begin, or end, with the same long text
    fn p_look_alike(&mut self) -> String {
        let f = self.frame("Debug");
        let c = self.frame("Debug");
        self.frames[f].has_child = true;
        self.frames[f].wraps = 2;
        self.frames[c].wraps = 2;
        let (t, u, v, w) = (self.t(), self.t(), self.t(), self.t());
        let long = "ev(100); ev(101); ev(102); ev(103); ev(104); ev(105); ev(106); ev(107); ";
        match self.ch.choose(5) {
            0 => {
                self.frames[f].marker = "mk".into();
                format!("fn main_() {{ let z; #[auto_enum(Debug, marker = mk)] {{ {long} let y = #[auto_enum(Debug)] {{ {long} if b(1) {{ z = mk!({t}); {v} }} else {{ z = mk!({u}); {w} }} }}; sink(y); }}; sink(z); }}")
            }
            1 => {
                self.frames[f].marker = "mk".into();
                self.frames[c].marker = "mi".into();
                format!("fn main_() {{ let z; let y; #[auto_enum(Debug, marker = mk)] {{ {long} #[auto_enum(Debug, marker = mi)] {{ {long} if b(1) {{ z = mk!({t}); y = mi!({v}); }} else {{ z = mk!({u}); y = mi!({w}); }} {long} }}; {long} }}; sink(z); sink(y); }}")
            }
            2 => format!("fn main_() {{ #[auto_enum(Debug)] let description_of_the_value = || {{ #[auto_enum(Debug)] let description_of_the_value = match s3(1) {{ 0 => return {t}, 1 => {v}, _ => {w} }}; sink(description_of_the_value); return {u} }}; sink(description_of_the_value()); }}"),
            3 => format!("fn main_() {{ #[auto_enum(Debug)] let description_of_the_value = || {{ {long} let d = #[auto_enum(Debug)] match s3(1) {{ 0 => return {t}, 1 => {v}, _ => {w} }}; sink(d); {long} return {u} }}; sink(description_of_the_value()); }}"),
            _ => format!("#[auto_enum(Debug)] fn f() -> impl Debug {{ let x = || {{ {long} #[auto_enum(Debug)] let x = || {{ {long} if b(1) {{ return {t}; }} return {u} }}; sink(x()); }}; x(); {long} if b(3) {{ return {v}; }} marker!({w}) }} fn main_() {{ sink(f()); }}"),
        }
    }

    fn p_multi(&mut self) -> String {
        let k = self.ch.choose(6);
        match k {
            0 | 1 => {
                // empty outer annotation (0) or none (1), sequence of annotated statements
                let outer = if k == 0 {
                    let d = self.frame("");
                    self.frames[d].has_child = true;
                    self.cur = d;
                    "#[auto_enum] "
                } else {
                    self.cur = usize::MAX;
                    ""
                };
                let cx = Self::nocx();
                let mut s = self.child(&cx);
                if self.ch.choose(2) == 1 {
                    s.push(' ');
                    s.push_str(&self.child(&cx));
                }
                format!("{outer}fn main_() {{ ev(0); {s} ev(1000); }}")
            }
            2 => {
                // active outer function with returns, children inside
                let f = self.frame("Debug");
                self.cur = f;
                let cx = Ctx { ret: Ret::Val(Val::Wrap(f)), ..Self::nocx() };
                let s = self.child(&cx);
                let h = self.hole(&cx);
                let x = self.branching(f, &cx);
                format!("#[auto_enum(Debug)] fn f() -> impl Debug {{ {s} {h} {x} }} fn main_() {{ sink(f()); }}")
            }
            3 => {
                // annotation within an annotated let's branch
                let f = self.frame("Debug");
                self.cur = f;
                let cx = Self::nocx();
                let x = self.branching(f, &cx);
                format!("fn main_() {{ #[auto_enum(Debug)] let x = {x}; sink(x); }}")
            }
            4 => {
                // outer empty, outer let annotated with children, expression child in tail
                let d = self.frame("");
                self.frames[d].has_child = true;
                let f = self.frame("Debug");
                self.cur = f;
                let cx = Self::nocx();
                let x = self.branching(f, &cx);
                self.cur = d;
                let c = self.child(&cx);
                format!("#[auto_enum] fn f() -> impl Debug {{ #[auto_enum(Debug)] let x = {x}; {c} x }} fn main_() {{ sink(f()); }}")
            }
            _ => {
                // the child's enum is the outer's branch value; nested item with own annotation
                let f = self.frame("Debug");
                self.frames[f].has_child = true;
                let c = self.frame("Debug");
                let g = self.frame("Debug");
                let cx = Self::nocx();
                let n = self.n();
                self.wrap(f);
                self.wrap(f);
                self.cur = c;
                let x = self.branching(c, &cx);
                self.cur = g;
                let y = self.branching(g, &cx);
                let (t, u) = (self.t(), self.n());
                let _ = u;
                format!("#[auto_enum(Debug)] fn f() -> impl Debug {{ #[auto_enum(Debug)] fn g() -> impl Debug {{ {y} }} sink(g()); if b({n}) {{ #[auto_enum(Debug)] let z = {x}; z }} else {{ {t} }} }} fn main_() {{ sink(f()); }}")
            }
        }
    }
}

/// A jump (`@`) as an operand of other expressions.
const RETS: &[&str] = &[
    "let _ = b(#) || @;",
    "if b(#) { @ } else { ev(#) }",
    "match o::<$>() { Some(_) => ev(#), None => @ }",
    "if b(#) { sink(@); }",
    "if b(#) { let _ = (ev(#), @); }",
    "let _v = if b(#) { t::<$>() } else { @ };",
    "if b(#) { (@) }",
    "while b(#) { @ }",
];

/// Statement templates around a hole `@`; '#': fresh event number, '$': fresh tag.
/// kind: 'n' normal, 'w' while-condition, 'l' inside a loop body.
const CARRIERS: &[(&str, char)] = &[
    ("if { @ b(#) } { ev(#); }", 'n'),
    ("match { @ s2(#) } { 0 => ev(#), _ => ev(#) }", 'n'),
    ("sink({ @ t::<$>() });", 'n'),
    ("use_::<$>({ @ t::<$>() }.id(#));", 'n'),
    ("let _ = b(#) && { @ b(#) };", 'n'),
    ("for _ in { @ it(#) } { ev(#); }", 'n'),
    ("while { @ b(#) } { ev(#); break; }", 'w'),
    ("match s2(#) { 0 if { @ b(#) } => ev(#), _ => ev(#) }", 'n'),
    ("unsafe { @ }", 'n'),
    ("let _ = (ev(#), { @ });", 'n'),
    ("let _v; _v = { @ t::<$>() };", 'n'),
    ("sink(&{ @ t::<$>() });", 'n'),
    ("let _ = if b(#) { @ } else { ev(#) };", 'n'),
    ("if let Some(_) = { @ o::<$>() } { ev(#); } else { ev(#); }", 'n'),
    ("sink([{ @ t::<$>() }]);", 'n'),
    ("let Some(_) = ({ @ o::<$>() }) else { panic!() };", 'n'),
    ("sink(W { a: { @ t::<$>() } });", 'n'),
    ("let _ = !{ @ b(#) };", 'n'),
    ("let _ = { @ 1 } as u8;", 'n'),
    ("let _ = [ev(#), ev(#)][{ @ 0 }];", 'n'),
    ("let _ = { @ 1 }..2;", 'n'),
    ("let _ = ((ev(#), { @ 1 })).1;", 'n'),
    ("'z: { @ if b(#) { break 'z; } ev(#); }", 'z'),
];
