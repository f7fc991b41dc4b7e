#![feature(rustc_private)]
// Dumps the type-checked HIR of the crate under verification as JSON. It reads rustc's own
// results (expansion, name resolution, type check) and takes no decision of its own.
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
use rustc_ast as ast;
use rustc_ast::visit as avisit;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir as hir;
use rustc_hir::def::{DefKind, Res};
use rustc_hir::intravisit::{self, Visitor};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::adjustment::{Adjust, AutoBorrow, PointerCoercion, DerefAdjustKind};
use rustc_middle::ty::{self, print::{with_no_trimmed_paths, with_forced_trimmed_paths}, Ty, TyCtxt, TypeckResults, TypeVisitableExt};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::Mutex;

#[derive(Clone)]
enum Piece { Lit(String), Arg { idx: usize, tr: String, spec: String } }
#[derive(Clone)]
struct FA { pieces: Vec<Piece>, args: Vec<Span> }
static FMT: Mutex<Vec<((u32, u32), FA)>> = Mutex::new(Vec::new());

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => { write!(o, "\\u{:04x}", c as u32).unwrap(); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct AV;
impl<'a> avisit::Visitor<'a> for AV {
    fn visit_expr(&mut self, e: &'a ast::Expr) {
        if let ast::ExprKind::FormatArgs(fa) = &e.kind {
            let mut pieces = vec![];
            for p in &fa.template {
                match p {
                    ast::FormatArgsPiece::Literal(s) => pieces.push(Piece::Lit(s.as_str().to_string())),
                    ast::FormatArgsPiece::Placeholder(p) => {
                        let idx = match p.argument.index { Ok(i) => i, Err(i) => i };
                        let o = &p.format_options;
                        let mut spec = String::new();
                        let cnt = |c: &Option<ast::FormatCount>| match c {
                            None => "null".to_string(),
                            Some(ast::FormatCount::Literal(n)) => format!("{{\"lit\":{}}}", n),
                            Some(ast::FormatCount::Argument(a)) => format!("{{\"arg\":{}}}", match a.index { Ok(i) => i, Err(i) => i }),
                        };
                        write!(spec, "{{\"width\":{},\"precision\":{},\"flags\":{}}}", cnt(&o.width), cnt(&o.precision),
                            js(&format!("{:?}|{:?}|{:?}|{}|{:?}", o.alignment, o.fill, o.sign, o.zero_pad, o.alternate))).unwrap();
                        pieces.push(Piece::Arg { idx, tr: format!("{:?}", p.format_trait), spec });
                    }
                }
            }
            let args = fa.arguments.all_args().iter().map(|a| a.expr.span).collect();
            FMT.lock().unwrap().push(((e.span.lo().0, e.span.hi().0), FA { pieces, args }));
            // key by the macro call site as well
            let cs = e.span.source_callsite();
            if cs.lo() != e.span.lo() || cs.hi() != e.span.hi() {
                let last = FMT.lock().unwrap().last().unwrap().1.clone();
                FMT.lock().unwrap().push(((cs.lo().0, cs.hi().0), last));
            }
        }
        avisit::walk_expr(self, e);
    }
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    tyix: HashMap<String, usize>,
    tr: Option<&'tcx TypeckResults<'tcx>>,
    owner: Option<LocalDefId>,
}
struct FindSpan<'tcx> { sp: Span, found: Option<&'tcx hir::Expr<'tcx>>, tcx: TyCtxt<'tcx> }
impl<'tcx> Visitor<'tcx> for FindSpan<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        if self.found.is_some() { return; }
        if e.span.lo() == self.sp.lo() && e.span.hi() == self.sp.hi() {
            // skip the reference that the lowering puts around the argument
            if let hir::ExprKind::AddrOf(_, _, inner) = e.kind {
                if inner.span.lo() == e.span.lo() && inner.span.hi() == e.span.hi() { self.found = Some(inner); return; }
            }
            self.found = Some(e); return;
        }
        intravisit::walk_expr(self, e);
    }
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let s = self.tyj(t);
        if let Some(i) = self.tyix.get(&s) { return *i; }
        let i = self.tys.len();
        self.tys.push(s.clone());
        self.tyix.insert(s, i);
        i
    }
    fn gargs(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = a.iter().filter_map(|x| match x.kind() {
            ty::GenericArgKind::Type(t) => Some(self.tyj(t)),
            ty::GenericArgKind::Const(c) => Some(format!("{{\"k\":\"const\",\"v\":{}}}", c.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into()))),
            _ => None,
        }).collect();
        format!("[{}]", v.join(","))
    }
    fn tyj(&mut self, t: Ty<'tcx>) -> String {
        match *t.kind() {
            ty::Bool => "{\"k\":\"prim\",\"n\":\"bool\"}".into(),
            ty::Char => "{\"k\":\"prim\",\"n\":\"char\"}".into(),
            ty::Str => "{\"k\":\"prim\",\"n\":\"str\"}".into(),
            ty::Int(_) | ty::Uint(_) | ty::Float(_) => format!("{{\"k\":\"prim\",\"n\":{}}}", js(&t.to_string())),
            ty::Never => "{\"k\":\"never\"}".into(),
            ty::Adt(d, a) => { let g = self.gargs(a); format!("{{\"k\":\"adt\",\"p\":{},\"local\":{},\"a\":{}}}", js(&self.path(d.did())), d.did().is_local(), g) }
            ty::Ref(_, t, m) => { let i = self.tyj(t); format!("{{\"k\":\"ref\",\"mut\":{},\"t\":{}}}", m.is_mut(), i) }
            ty::Slice(t) => { let i = self.tyj(t); format!("{{\"k\":\"slice\",\"t\":{}}}", i) }
            ty::Array(t, n) => { let i = self.tyj(t); format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", i, n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())) }
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.tyj(t)).collect(); format!("{{\"k\":\"tup\",\"a\":[{}]}}", v.join(",")) }
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", js(p.name.as_str())),
            ty::Closure(d, _) => format!("{{\"k\":\"closure\",\"id\":{}}}", js(&format!("{:?}", d))),
            ty::FnDef(d, _) => format!("{{\"k\":\"fndef\",\"p\":{}}}", js(&self.path(d))),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", js(&with_no_trimmed_paths!(t.to_string()))),
        }
    }
    fn sp(&self, s: Span) -> String {
        let macro_name = if s.from_expansion() {
            let mut names: Vec<String> = vec![];
            let mut cur = s;
            while cur.from_expansion() {
                let d = cur.ctxt().outer_expn_data();
                names.push(match d.kind {
                    rustc_span::ExpnKind::Macro(_, n) => n.to_string(),
                    rustc_span::ExpnKind::Desugaring(k) => format!("~{:?}", k),
                    _ => "~".into(),
                });
                cur = d.call_site;
            }
            Some(names)
        } else { None };
        let sm = self.tcx.sess.source_map();
        let cs = s.source_callsite();
        let lo = sm.lookup_char_pos(cs.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        let m = match macro_name { None => String::new(), Some(v) => format!(",\"mac\":[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")) };
        format!("\"sp\":{}{}", js(&format!("{}:{}:{}", f, lo.line, lo.col.0)), m)
    }
    fn lit(&self, l: &hir::Lit) -> String {
        use ast::LitKind::*;
        match l.node {
            Str(s, _) => format!("{{\"str\":{}}}", js(s.as_str())),
            ByteStr(ref b, _) => format!("{{\"bytes\":[{}]}}", b.as_byte_str().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
            Byte(b) => format!("{{\"int\":\"{}\"}}", b),
            Char(c) => format!("{{\"char\":{}}}", c as u32),
            Int(n, _) => format!("{{\"int\":\"{}\"}}", n.get()),
            Float(s, _) => format!("{{\"float\":{}}}", js(s.as_str())),
            Bool(b) => format!("{{\"bool\":{}}}", b),
            _ => "{\"other\":true}".into(),
        }
    }
    fn res(&self, r: Res) -> String {
        match r {
            Res::Local(h) => format!("{{\"local\":{}}}", h.local_id.as_u32()),
            Res::Def(k, d) => {
                let parent = match k { DefKind::Ctor(..) => self.path(self.tcx.parent(d)), _ => String::new() };
                format!("{{\"def\":{},\"dk\":{},\"ctor_of\":{},\"is_local\":{}}}", js(&self.path(d)), js(&format!("{:?}", k)), js(&parent), d.is_local())
            }
            Res::SelfCtor(d) => {
                let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let p = match t.kind() { ty::Adt(a, _) => self.path(a.did()), _ => String::new() };
                format!("{{\"def\":{},\"dk\":\"SelfCtor\",\"ctor_of\":{},\"is_local\":true}}", js(&p), js(&p))
            }
            Res::SelfTyAlias { alias_to, .. } => {
                let t = self.tcx.type_of(alias_to).instantiate_identity().skip_norm_wip();
                let p = match t.kind() { ty::Adt(a, _) => self.path(a.did()), _ => String::new() };
                format!("{{\"def\":{},\"dk\":\"SelfTy\",\"ctor_of\":{},\"is_local\":true}}", js(&p), js(&p))
            }
            _ => format!("{{\"otherres\":{}}}", js(&format!("{:?}", r))),
        }
    }
    fn qres(&self, q: &hir::QPath<'tcx>, id: hir::HirId) -> String { self.res(self.tr.unwrap().qpath_res(q, id)) }
    fn pexpr(&mut self, p: &'tcx hir::PatExpr<'tcx>) -> String {
        match &p.kind {
            hir::PatExprKind::Lit { lit, negated } => format!("{{\"k\":\"lit\",\"lit\":{},\"neg\":{}}}", self.lit(lit), negated),
            hir::PatExprKind::Path(q) => format!("{{\"k\":\"path\",\"res\":{}}}", self.qres(q, p.hir_id)),
        }
    }
    fn pat(&mut self, p: &'tcx hir::Pat<'tcx>) -> String {
        let tr = self.tr.unwrap();
        let t = match tr.node_type_opt(p.hir_id) { Some(t) => self.ty(t) as i64, None => -1 };
        let pd = tr.pat_adjustments().get(p.hir_id).map(|v| v.len()).unwrap_or(0);
        let head = format!("\"t\":{},\"pd\":{}", t, pd);
        let pats = |s: &mut Self, v: &'tcx [hir::Pat<'tcx>]| -> String { let x: Vec<String> = v.iter().map(|p| s.pat(p)).collect(); format!("[{}]", x.join(",")) };
        match &p.kind {
            hir::PatKind::Wild => format!("{{\"k\":\"wild\",{}}}", head),
            hir::PatKind::Binding(bm, id, name, sub) => {
                let eff = tr.extract_binding_mode(self.tcx.sess, p.hir_id, p.span);
                let s = match sub { Some(q) => self.pat(q), None => "null".into() };
                format!("{{\"k\":\"bind\",{},\"id\":{},\"name\":{},\"mut\":{},\"byref\":{},\"sub\":{}}}", head, id.local_id.as_u32(), js(name.as_str()),
                    bm.1.is_mut(), js(match eff.0 { hir::ByRef::No => "no", hir::ByRef::Yes(_, m) => if m.is_mut() { "mut" } else { "ref" } }), s)
            }
            hir::PatKind::Struct(q, fs, rest) => {
                let r = self.qres(q, p.hir_id);
                let f: Vec<String> = fs.iter().map(|f| format!("[{},{}]", js(f.ident.as_str()), self.pat(f.pat))).collect();
                format!("{{\"k\":\"struct\",{},\"res\":{},\"fields\":[{}],\"rest\":{}}}", head, r, f.join(","), rest.is_some())
            }
            hir::PatKind::TupleStruct(q, ps, dd) => {
                let r = self.qres(q, p.hir_id);
                let v = pats(self, ps);
                format!("{{\"k\":\"tupstruct\",{},\"res\":{},\"pats\":{},\"dd\":{}}}", head, r, v, dd.as_opt_usize().map(|x| x.to_string()).unwrap_or("null".into()))
            }
            hir::PatKind::Or(ps) => { let v = pats(self, ps); format!("{{\"k\":\"or\",{},\"pats\":{}}}", head, v) }
            hir::PatKind::Tuple(ps, dd) => { let v = pats(self, ps); format!("{{\"k\":\"tuple\",{},\"pats\":{},\"dd\":{}}}", head, v, dd.as_opt_usize().map(|x| x.to_string()).unwrap_or("null".into())) }
            hir::PatKind::Ref(q, _, m) => { let v = self.pat(q); format!("{{\"k\":\"ref\",{},\"mut\":{},\"pat\":{}}}", head, m.is_mut(), v) }
            hir::PatKind::Expr(e) => { let v = self.pexpr(e); format!("{{\"k\":\"expr\",{},\"e\":{}}}", head, v) }
            hir::PatKind::Range(a, b, end) => {
                let x = match a { Some(e) => self.pexpr(e), None => "null".into() };
                let y = match b { Some(e) => self.pexpr(e), None => "null".into() };
                format!("{{\"k\":\"range\",{},\"lo\":{},\"hi\":{},\"incl\":{}}}", head, x, y, matches!(end, hir::RangeEnd::Included))
            }
            hir::PatKind::Slice(a, m, b) => {
                let x = pats(self, a);
                let y = match m { Some(q) => self.pat(q), None => "null".into() };
                let z = pats(self, b);
                format!("{{\"k\":\"slice\",{},\"before\":{},\"mid\":{},\"after\":{}}}", head, x, y, z)
            }
            _ => format!("{{\"k\":\"unsupported\",{}}}", head),
        }
    }
    fn exprs(&mut self, v: &'tcx [hir::Expr<'tcx>]) -> String { let x: Vec<String> = v.iter().map(|e| self.expr(e)).collect(); format!("[{}]", x.join(",")) }
    fn block(&mut self, b: &'tcx hir::Block<'tcx>) -> String {
        let mut v = vec![];
        for s in b.stmts {
            match s.kind {
                hir::StmtKind::Let(l) => {
                    let p = self.pat(l.pat);
                    let i = match l.init { Some(e) => self.expr(e), None => "null".into() };
                    let e = match l.els { Some(b) => self.block(b), None => "null".into() };
                    v.push(format!("{{\"k\":\"let\",{},\"pat\":{},\"init\":{},\"els\":{}}}", self.sp(s.span), p, i, e));
                }
                hir::StmtKind::Expr(e) => { let x = self.expr(e); v.push(format!("{{\"k\":\"expr\",\"e\":{}}}", x)); }
                hir::StmtKind::Semi(e) => { let x = self.expr(e); v.push(format!("{{\"k\":\"semi\",\"e\":{}}}", x)); }
                hir::StmtKind::Item(_) => v.push("{\"k\":\"item\"}".into()),
            }
        }
        let e = match b.expr { Some(e) => self.expr(e), None => "null".into() };
        format!("{{\"stmts\":[{}],\"expr\":{},\"id\":{},\"unsafe\":{}}}", v.join(","), e, b.hir_id.local_id.as_u32(), !matches!(b.rules, hir::BlockCheckMode::DefaultBlock))
    }
    fn callee_info(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut inst = "null".to_string();
        if !args.has_param() && (self.tcx.trait_of_assoc(d).is_none() || args.len() > 0) && matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let env = ty::TypingEnv::post_analysis(self.tcx, self.owner.unwrap().to_def_id());
            let args2 = self.tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = ty::Instance::try_resolve(self.tcx, env, d, args2) {
                inst = js(&self.path(i.def_id()));
            }
        }
        let tr = match self.tcx.trait_of_assoc(d) { Some(t) => js(&self.path(t)), None => "null".into() };
        let g = self.gargs(args);
        format!("\"callee\":{{\"p\":{},\"name\":{},\"trait\":{},\"inst\":{},\"ga\":{},\"is_local\":{}}}", js(&self.path(d)), js(self.tcx.item_name(d).as_str()), tr, inst, g, d.is_local())
    }
    fn expr(&mut self, e: &'tcx hir::Expr<'tcx>) -> String {
        let tr = self.tr.unwrap();
        let t = match tr.expr_ty_opt(e) { Some(t) => self.ty(t) as i64, None => -1 };
        let at = match tr.expr_ty_adjusted_opt(e) { Some(t) => self.ty(t) as i64, None => -1 };
        let mut adj = vec![];
        for a in tr.expr_adjustments(e) {
            let n = match a.kind {
                Adjust::NeverToAny => "never",
                Adjust::Deref(DerefAdjustKind::Builtin) => "deref",
                Adjust::Deref(_) => "derefov",
                Adjust::Borrow(AutoBorrow::Ref(m)) => if matches!(m, ty::adjustment::AutoBorrowMutability::Not) { "borrow" } else { "borrowmut" },
                Adjust::Borrow(_) => "rawborrow",
                Adjust::Pointer(PointerCoercion::Unsize) => "unsize",
                _ => "other",
            };
            let ti = self.ty(a.target);
            adj.push(format!("[{},{}]", js(n), ti));
        }
        let mut head = format!("\"t\":{},\"at\":{},{}", t, at, self.sp(e.span));
        if !adj.is_empty() { head = format!("{},\"adj\":[{}]", head, adj.join(",")); }
        // format_args!
        if e.span.from_expansion() {
            let is_fmt = match tr.expr_ty_opt(e) { Some(t) => with_no_trimmed_paths!(t.to_string()).contains("fmt::Arguments") && matches!(t.kind(), ty::Adt(..)), None => false };
            if is_fmt {
                let cs = e.span.source_callsite();
                let fa = FMT.lock().unwrap().iter().find(|(k, _)| *k == (cs.lo().0, cs.hi().0)).map(|x| x.1.clone());
                if let Some(fa) = fa {
                    let mut args = vec![];
                    for sp in &fa.args {
                        let mut f = FindSpan { sp: *sp, found: None, tcx: self.tcx };
                        f.visit_expr(e);
                        args.push(match f.found { Some(x) => self.expr(x), None => "null".into() });
                    }
                    let ps: Vec<String> = fa.pieces.iter().map(|p| match p {
                        Piece::Lit(s) => format!("{{\"lit\":{}}}", js(s)),
                        Piece::Arg { idx, tr, spec } => format!("{{\"arg\":{},\"trait\":{},\"spec\":{}}}", idx, js(tr), spec),
                    }).collect();
                    return format!("{{\"k\":\"format\",{},\"pieces\":[{}],\"args\":[{}]}}", head, ps.join(","), args.join(","));
                }
            }
        }
        match e.kind {
            hir::ExprKind::Array(v) => { let x = self.exprs(v); format!("{{\"k\":\"array\",{},\"v\":{}}}", head, x) }
            hir::ExprKind::Call(f, a) => {
                let mut ci = String::new();
                if let hir::ExprKind::Path(ref q) = f.kind {
                    if let Res::Def(_, d) = tr.qpath_res(q, f.hir_id) {
                        let args = tr.node_args(f.hir_id);
                        ci = format!(",{}", self.callee_info(d, args));
                    }
                }
                let fx = self.expr(f);
                let ax = self.exprs(a);
                format!("{{\"k\":\"call\",{}{},\"f\":{},\"args\":{}}}", head, ci, fx, ax)
            }
            hir::ExprKind::MethodCall(seg, r, a, _) => {
                let ci = match tr.type_dependent_def_id(e.hir_id) { Some(d) => { let args = tr.node_args(e.hir_id); self.callee_info(d, args) } None => "\"callee\":null".into() };
                let rx = self.expr(r);
                let ax = self.exprs(a);
                format!("{{\"k\":\"mcall\",{},{},\"name\":{},\"recv\":{},\"args\":{}}}", head, ci, js(seg.ident.as_str()), rx, ax)
            }
            hir::ExprKind::Tup(v) => { let x = self.exprs(v); format!("{{\"k\":\"tup\",{},\"v\":{}}}", head, x) }
            hir::ExprKind::Binary(op, a, b) => {
                let x = self.expr(a); let y = self.expr(b);
                let ov = match tr.type_dependent_def_id(e.hir_id) { Some(d) => js(&self.path(d)), None => "null".into() };
                format!("{{\"k\":\"bin\",{},\"op\":{},\"l\":{},\"r\":{},\"ov\":{}}}", head, js(op.node.as_str()), x, y, ov)
            }
            hir::ExprKind::Unary(op, a) => {
                let x = self.expr(a);
                let ov = match tr.type_dependent_def_id(e.hir_id) { Some(d) => js(&self.path(d)), None => "null".into() };
                format!("{{\"k\":\"un\",{},\"op\":{},\"e\":{},\"ov\":{}}}", head, js(op.as_str()), x, ov)
            }
            hir::ExprKind::Lit(ref l) => format!("{{\"k\":\"lit\",{},\"lit\":{}}}", head, self.lit(l)),
            hir::ExprKind::Cast(x, _) | hir::ExprKind::Type(x, _) => { let y = self.expr(x); format!("{{\"k\":\"cast\",{},\"e\":{}}}", head, y) }
            hir::ExprKind::DropTemps(x) | hir::ExprKind::Use(x, _) => { let y = self.expr(x); format!("{{\"k\":\"droptemps\",{},\"e\":{}}}", head, y) }
            hir::ExprKind::Let(l) => { let p = self.pat(l.pat); let i = self.expr(l.init); format!("{{\"k\":\"let\",{},\"pat\":{},\"init\":{}}}", head, p, i) }
            hir::ExprKind::If(c, a, b) => {
                let x = self.expr(c); let y = self.expr(a); let z = match b { Some(b) => self.expr(b), None => "null".into() };
                format!("{{\"k\":\"if\",{},\"c\":{},\"th\":{},\"el\":{}}}", head, x, y, z)
            }
            hir::ExprKind::Loop(b, l, src, _) => { let x = self.block(b); format!("{{\"k\":\"loop\",{},\"b\":{},\"label\":{},\"src\":{},\"id\":{}}}", head, x, l.map(|l| js(l.ident.as_str())).unwrap_or("null".into()), js(&format!("{:?}", src)), e.hir_id.local_id.as_u32()) }
            hir::ExprKind::Match(s, arms, src) => {
                let x = self.expr(s);
                let a: Vec<String> = arms.iter().map(|a| {
                    let p = self.pat(a.pat);
                    let g = match a.guard { Some(g) => self.expr(g), None => "null".into() };
                    let b = self.expr(a.body);
                    format!("{{\"pat\":{},\"guard\":{},\"body\":{}}}", p, g, b)
                }).collect();
                let s = match src { hir::MatchSource::Normal => "normal", hir::MatchSource::ForLoopDesugar => "for", hir::MatchSource::TryDesugar(_) => "try", _ => "other" };
                format!("{{\"k\":\"match\",{},\"s\":{},\"arms\":[{}],\"src\":{}}}", head, x, a.join(","), js(s))
            }
            hir::ExprKind::Closure(c) => {
                let b = self.tcx.hir_body(c.body);
                let ps: Vec<String> = b.params.iter().map(|p| self.pat(p.pat)).collect();
                let x = self.expr(b.value);
                format!("{{\"k\":\"closure\",{},\"params\":[{}],\"body\":{}}}", head, ps.join(","), x)
            }
            hir::ExprKind::Block(b, l) => { let x = self.block(b); format!("{{\"k\":\"block\",{},\"b\":{},\"label\":{},\"id\":{}}}", head, x, l.map(|l| js(l.ident.as_str())).unwrap_or("null".into()), e.hir_id.local_id.as_u32()) }
            hir::ExprKind::Assign(a, b, _) => { let x = self.expr(a); let y = self.expr(b); format!("{{\"k\":\"assign\",{},\"l\":{},\"r\":{}}}", head, x, y) }
            hir::ExprKind::AssignOp(op, a, b) => {
                let x = self.expr(a); let y = self.expr(b);
                let ov = match tr.type_dependent_def_id(e.hir_id) { Some(d) => js(&self.path(d)), None => "null".into() };
                format!("{{\"k\":\"assignop\",{},\"op\":{},\"l\":{},\"r\":{},\"ov\":{}}}", head, js(op.node.as_str()), x, y, ov)
            }
            hir::ExprKind::Field(a, id) => { let x = self.expr(a); format!("{{\"k\":\"field\",{},\"e\":{},\"name\":{}}}", head, x, js(id.as_str())) }
            hir::ExprKind::Index(a, b, _) => {
                let x = self.expr(a); let y = self.expr(b);
                let ov = match tr.type_dependent_def_id(e.hir_id) { Some(d) => js(&self.path(d)), None => "null".into() };
                format!("{{\"k\":\"index\",{},\"e\":{},\"i\":{},\"ov\":{}}}", head, x, y, ov)
            }
            hir::ExprKind::Path(ref q) => {
                let r = tr.qpath_res(q, e.hir_id);
                let mut ci = String::new();
                if let Res::Def(DefKind::Fn | DefKind::AssocFn, d) = r { let args = tr.node_args(e.hir_id); ci = format!(",{}", self.callee_info(d, args)); }
                format!("{{\"k\":\"path\",{},\"res\":{}{}}}", head, self.res(r), ci)
            }
            hir::ExprKind::AddrOf(_, m, x) => { let y = self.expr(x); format!("{{\"k\":\"addr\",{},\"mut\":{},\"e\":{}}}", head, m.is_mut(), y) }
            hir::ExprKind::Break(d, x) => { let y = match x { Some(x) => self.expr(x), None => "null".into() }; format!("{{\"k\":\"break\",{},\"target\":{},\"e\":{}}}", head, d.target_id.map(|i| i.local_id.as_u32().to_string()).unwrap_or("null".into()), y) }
            hir::ExprKind::Continue(d) => format!("{{\"k\":\"continue\",{},\"target\":{}}}", head, d.target_id.map(|i| i.local_id.as_u32().to_string()).unwrap_or("null".into())),
            hir::ExprKind::Ret(x) => { let y = match x { Some(x) => self.expr(x), None => "null".into() }; format!("{{\"k\":\"ret\",{},\"e\":{}}}", head, y) }
            hir::ExprKind::Struct(q, fs, tail) => {
                let r = self.qres(q, e.hir_id);
                let f: Vec<String> = fs.iter().map(|f| format!("[{},{}]", js(f.ident.as_str()), self.expr(f.expr))).collect();
                let b = match tail { hir::StructTailExpr::Base(b) => self.expr(b), _ => "null".into() };
                format!("{{\"k\":\"struct\",{},\"res\":{},\"fields\":[{}],\"base\":{}}}", head, r, f.join(","), b)
            }
            hir::ExprKind::Repeat(x, _) => { let y = self.expr(x); format!("{{\"k\":\"repeat\",{},\"e\":{}}}", head, y) }
            _ => format!("{{\"k\":\"unsupported\",{},\"what\":{}}}", head, js(&format!("{:?}", std::mem::discriminant(&e.kind)))),
        }
    }
    fn item_fn(&mut self, o: LocalDefId) -> Option<String> {
        let tcx = self.tcx;
        let d = o.to_def_id();
        let kind = tcx.def_kind(d);
        let body = tcx.hir_body_owned_by(o);
        self.tr = Some(tcx.typeck(o));
        self.owner = Some(o);
        let mut head = format!("\"path\":{},\"kind\":{},{}", js(&self.path(d)), js(&format!("{:?}", kind)), self.sp(tcx.def_span(d)));
        match kind {
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                let ins: Vec<String> = sig.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
                let out = self.ty(sig.output());
                let preds: Vec<String> = tcx.clauses_of(d).instantiate_identity(tcx).clauses.iter().map(|p| js(&with_no_trimmed_paths!(format!("{:?}", p.skip_norm_wip())))).collect();
                let gens: Vec<String> = { let g = tcx.generics_of(d); (0..g.count()).filter_map(|i| { let p = g.param_at(i, tcx); if matches!(p.kind, ty::GenericParamDefKind::Lifetime) { None } else { Some(js(p.name.as_str())) } }).collect() };
                let imp = match tcx.impl_of_assoc(d) { Some(i) => {
                        let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                        let si = self.ty(st);
                        let t = match tcx.impl_opt_trait_ref(i) { Some(t) => js(&self.path(t.skip_binder().def_id)), None => "null".into() };
                        format!("{{\"self\":{},\"trait\":{}}}", si, t)
                    } None => "null".into() };
                let tr = match tcx.trait_of_assoc(d) { Some(t) => js(&self.path(t)), None => "null".into() };
                let ps: Vec<String> = body.params.iter().map(|p| self.pat(p.pat)).collect();
                head = format!("{},\"name\":{},\"ins\":[{}],\"out\":{},\"preds\":[{}],\"gens\":[{}],\"impl\":{},\"trait\":{},\"params\":[{}],\"pub\":{}", head, js(tcx.item_name(d).as_str()), ins.join(","), out, preds.join(","), gens.join(","), imp, tr, ps.join(","), tcx.visibility(d).is_public());
            }
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let ti = self.ty(t);
                head = format!("{},\"t\":{}", head, ti);
            }
            _ => return None,
        }
        let x = self.expr(body.value);
        Some(format!("{{{},\"body\":{}}}", head, x))
    }
}
struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if std::env::var("HIRDUMP_OUT").is_err() || tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str() != "barcoders" { return Compilation::Continue; }
        let (_r, krate) = tcx.resolver_for_lowering();
        let krate = krate.borrow();
        avisit::walk_crate(&mut AV, &krate);
        Compilation::Continue
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(path) = std::env::var("HIRDUMP_OUT") else { return Compilation::Continue };
        if tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str() != "barcoders" { return Compilation::Continue; }
        let mut d = D { tcx, tys: vec![], tyix: HashMap::new(), tr: None, owner: None };
        let mut fns = vec![];
        for o in tcx.hir_body_owners() {
            if tcx.is_closure_like(o.to_def_id()) { continue; }
            let derived = tcx.hir_attrs(tcx.local_def_id_to_hir_id(o)).len() < usize::MAX && tcx.impl_of_assoc(o.to_def_id()).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false);
            if derived { continue; }
            if let Some(s) = d.item_fn(o) { fns.push(s); }
        }
        let mut adts = vec![];
        for id in tcx.hir_free_items() {
            let o = id.owner_id.def_id;
            if !matches!(tcx.def_kind(o), DefKind::Struct | DefKind::Enum) { continue; }
            let a = tcx.adt_def(o);
            let mut vs = vec![];
            for v in a.variants() {
                let fs: Vec<String> = v.fields.iter().map(|f| { let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip(); let i = d.ty(t); format!("[{},{}]", js(f.name.as_str()), i) }).collect();
                vs.push(format!("{{\"name\":{},\"ctor\":{},\"fields\":[{}]}}", js(v.name.as_str()), js(&format!("{:?}", v.ctor_kind())), fs.join(",")));
            }
            let p = d.path(o.to_def_id());
            let ds: Vec<String> = if a.is_enum() { a.discriminants(tcx).map(|(_, x)| x.val.to_string()).collect() } else { vec![] };
            adts.push(format!("{{\"path\":{},\"enum\":{},\"disc\":[{}],\"variants\":[{}],\"copy\":{}}}", js(&p), a.is_enum(), ds.join(","), vs.join(","),
                tcx.type_is_copy_modulo_regions(ty::TypingEnv::post_analysis(tcx, o.to_def_id()), tcx.type_of(o).instantiate_identity().skip_norm_wip())));
        }
        let _ = with_forced_trimmed_paths!(0);
        let out = format!("{{\"tys\":[{}],\n\"fns\":[{}],\n\"adts\":[{}]}}", d.tys.join(","), fns.join(",\n"), adts.join(","));
        std::fs::write(path, out).unwrap();
        Compilation::Continue
    }
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
