//! Dumps the type-checked program (THIR) of every local body as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::thir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

struct Cb;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_js: Vec<String>,
}

struct Body<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    thir: &'a Thir<'tcx>,
    env: ty::TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_crate_prefix!({
            let s = self.tcx.def_path_str(d);
            let k = self.tcx.crate_name(d.krate).to_string();
            if let Some(r) = s.strip_prefix("crate::") { format!("{k}::{r}") } else { s.replace("<crate::", &format!("<{k}::")).replace(" crate::", &format!(" {k}::")) }
        }))
    }
    fn dh(&self, d: DefId) -> String {
        js(&format!("{:?}", self.tcx.def_path_hash(d).0))
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = a
            .iter()
            .map(|g| match g.kind() {
                ty::GenericArgKind::Type(t) => self.ty(t).to_string(),
                ty::GenericArgKind::Const(c) => js(&format!("const:{}", c)),
                _ => js("'_"),
            })
            .collect();
        format!("[{}]", v.join(","))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let tcx = self.tcx;
        let body = match t.kind() {
            ty::Adt(d, a) => { let p = self.path(d.did()); let a = self.args(a); format!("\"k\":\"adt\",\"p\":{},\"a\":{}", js(&p), a) }
            ty::Ref(_, t, m) => format!("\"k\":\"ref\",\"m\":{},\"t\":{}", m.is_mut(), self.ty(*t)),
            ty::Slice(t) => format!("\"k\":\"slice\",\"t\":{}", self.ty(*t)),
            ty::Array(t, n) => format!("\"k\":\"array\",\"t\":{},\"n\":{}", self.ty(*t), js(&format!("{}", n))),
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect(); format!("\"k\":\"tuple\",\"a\":[{}]", v.join(",")) }
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", js(p.name.as_str())),
            ty::Closure(d, _) => format!("\"k\":\"closure\",\"p\":{}", js(&self.path(*d))),
            ty::FnDef(d, a) => { let p = self.path(*d); let a = self.args(a.skip_binder()); format!("\"k\":\"fndef\",\"p\":{},\"a\":{}", js(&p), a) }
            ty::Int(i) => format!("\"k\":\"int\",\"n\":{}", js(i.name_str())),
            ty::Uint(i) => format!("\"k\":\"uint\",\"n\":{}", js(i.name_str())),
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        let s = ty::print::with_no_trimmed_paths!(format!("{}", t));
        let _ = tcx;
        let i = self.ty_js.len();
        self.ty_js.push(format!("{{{},\"s\":{}}}", body, js(&s)));
        self.tys.insert(t, i);
        i
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        js(&format!("{}:{}", f, lo.line))
    }
    fn macro_name(&self, s: Span) -> Option<String> {
        // outermost macro the expression comes from
        let mut name = None;
        for e in s.macro_backtrace() {
            if let rustc_span::ExpnKind::Macro(_, n) = e.kind { name = Some(n.to_string()); }
        }
        name
    }
}

impl<'a, 'tcx> Body<'a, 'tcx> {
    fn fndef(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.cx.tcx;
        match t.kind() {
            ty::FnDef(d, a) => {
                let d = *d;
                let a = a.skip_binder();
                let p = self.cx.path(d);
                let mut o = format!("\"fn\":{},\"ga\":{}", js(&p), self.cx.args(a));
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    let _ = write!(o, ",\"trait\":{}", js(&self.cx.path(tr)));
                }
                let _ = write!(o, ",\"name\":{}", js(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()));
                let ea = tcx.erase_and_anonymize_regions(a);
                if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, ea) {
                        let rd = inst.def_id();
                        let rp = self.cx.path(rd);
                        let _ = write!(o, ",\"res\":{},\"rh\":{},\"rlocal\":{},\"rga\":{}", js(&rp), self.cx.dh(rd), rd.is_local(), self.cx.args(inst.args));
                        if let Some(im) = tcx.impl_of_assoc(rd) {
                            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                            let _ = write!(o, ",\"impl_self\":{}", self.cx.ty(st));
                        }
                    }
                } else {
                    let _ = write!(o, ",\"ctor\":true");
                }
                o
            }
            _ => format!("\"fn\":null"),
        }
    }
    fn block(&mut self, b: BlockId) -> String {
        let bl = &self.thir.blocks[b];
        let mut st = Vec::new();
        for s in bl.stmts.iter() {
            match &self.thir.stmts[*s].kind {
                StmtKind::Expr { expr, .. } => { let e = self.expr(*expr); st.push(format!("{{\"s\":\"expr\",\"e\":{}}}", e)) }
                StmtKind::Let { pattern, initializer, else_block, .. } => {
                    let p = self.pat(pattern);
                    let i = initializer.map(|e| self.expr(e)).unwrap_or("null".into());
                    let e = else_block.map(|b| self.block(b)).unwrap_or("null".into());
                    st.push(format!("{{\"s\":\"let\",\"pat\":{},\"init\":{},\"else\":{}}}", p, i, e));
                }
            }
        }
        let e = bl.expr.map(|e| self.expr(e)).unwrap_or("null".into());
        let tb = if bl.targeted_by_break { js(&format!("{:?}", bl.region_scope)) } else { "null".into() };
        format!("{{\"k\":\"block\",\"stmts\":[{}],\"e\":{},\"label\":{}}}", st.join(","), e, tb)
    }
    fn exprs(&mut self, v: &[ExprId]) -> String {
        let r: Vec<String> = v.iter().map(|e| self.expr(*e)).collect();
        format!("[{}]", r.join(","))
    }
    fn opt(&mut self, e: Option<ExprId>) -> String {
        e.map(|e| self.expr(e)).unwrap_or("null".into())
    }
    fn expr(&mut self, id: ExprId) -> String {
        let e = &self.thir.exprs[id];
        let t = self.cx.ty(e.ty);
        let inner = match &e.kind {
            ExprKind::Scope { value, region_scope, .. } => {
                // keep the scope label only for loops/blocks that are break targets
                let v = *value;
                let s = self.expr(v);
                if matches!(self.thir.exprs[v].kind, ExprKind::Loop { .. } | ExprKind::Block { .. } | ExprKind::LoopMatch{..}) {
                    return format!("{{\"k\":\"scope\",\"label\":{},\"e\":{},\"t\":{}}}", js(&format!("{:?}", region_scope)), s, t);
                }
                return s;
            }
            ExprKind::ValueTypeAscription { source, .. } | ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueExpr { source }
            | ExprKind::PlaceUnwrapUnsafeBinder { source } | ExprKind::ValueUnwrapUnsafeBinder { source } | ExprKind::WrapUnsafeBinder { source } => return self.expr(*source),
            ExprKind::ByUse { expr, .. } => return self.expr(*expr),
            ExprKind::If { cond, then, else_opt, .. } => { let c = self.expr(*cond); let a = self.expr(*then); let b = self.opt(*else_opt); format!("\"k\":\"if\",\"c\":{c},\"a\":{a},\"b\":{b}") }
            ExprKind::Call { ty, fun, args, .. } => {
                let f = self.fndef(*ty);
                let fe = if matches!(ty.kind(), ty::FnDef(..)) { "null".to_string() } else { self.expr(*fun) };
                let a = self.exprs(args);
                format!("\"k\":\"call\",{f},\"fe\":{fe},\"args\":{a}")
            }
            ExprKind::Deref { arg } => { let a = self.expr(*arg); format!("\"k\":\"deref\",\"e\":{a}") }
            ExprKind::Binary { op, lhs, rhs } => { let a = self.expr(*lhs); let b = self.expr(*rhs); format!("\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{a},\"b\":{b}", op) }
            ExprKind::LogicalOp { op, lhs, rhs } => { let a = self.expr(*lhs); let b = self.expr(*rhs); format!("\"k\":\"logic\",\"op\":\"{}\",\"a\":{a},\"b\":{b}", match op { LogicalOp::And => "and", LogicalOp::Or => "or" }) }
            ExprKind::Unary { op, arg } => { let a = self.expr(*arg); format!("\"k\":\"un\",\"op\":\"{:?}\",\"e\":{a}", op) }
            ExprKind::Cast { source } => { let a = self.expr(*source); format!("\"k\":\"cast\",\"e\":{a}") }
            ExprKind::NeverToAny { source } => { let a = self.expr(*source); format!("\"k\":\"nta\",\"e\":{a}") }
            ExprKind::PointerCoercion { source, cast, .. } => { let a = self.expr(*source); format!("\"k\":\"coerce\",\"c\":{},\"e\":{a}", js(&format!("{:?}", cast))) }
            ExprKind::Loop { body } => { let a = self.expr(*body); format!("\"k\":\"loop\",\"e\":{a}") }
            ExprKind::Let { expr, pat } => { let a = self.expr(*expr); let p = self.pat(pat); format!("\"k\":\"let\",\"e\":{a},\"pat\":{p}") }
            ExprKind::Match { scrutinee, arms, match_source } => {
                let s = self.expr(*scrutinee);
                let mut v = vec![];
                for a in arms.iter() {
                    let a = &self.thir.arms[*a];
                    let p = self.pat(&a.pattern);
                    let g = self.opt(a.guard);
                    let b = self.expr(a.body);
                    v.push(format!("{{\"pat\":{p},\"g\":{g},\"b\":{b}}}"));
                }
                format!("\"k\":\"match\",\"src\":{},\"e\":{s},\"arms\":[{}]", js(&format!("{:?}", match_source)), v.join(","))
            }
            ExprKind::Block { block } => { let b = self.block(*block); format!("\"k\":\"blk\",\"b\":{b}") }
            ExprKind::Assign { lhs, rhs } => { let a = self.expr(*lhs); let b = self.expr(*rhs); format!("\"k\":\"assign\",\"a\":{a},\"b\":{b}") }
            ExprKind::AssignOp { op, lhs, rhs } => { let a = self.expr(*lhs); let b = self.expr(*rhs); format!("\"k\":\"assignop\",\"op\":\"{:?}\",\"a\":{a},\"b\":{b}", op) }
            ExprKind::Field { lhs, variant_index, name } => {
                let lt = self.thir.exprs[*lhs].ty;
                let n = match lt.kind() { ty::Adt(d, _) => d.variants()[*variant_index].fields[*name].name.to_string(), _ => name.index().to_string() };
                let a = self.expr(*lhs);
                format!("\"k\":\"field\",\"e\":{a},\"n\":{},\"i\":{}", js(&n), name.index())
            }
            ExprKind::Index { lhs, index } => { let a = self.expr(*lhs); let b = self.expr(*index); format!("\"k\":\"index\",\"a\":{a},\"b\":{b}") }
            ExprKind::VarRef { id } => format!("\"k\":\"var\",\"v\":{}", js(&format!("{:?}", id.0))),
            ExprKind::UpvarRef { var_hir_id, .. } => format!("\"k\":\"var\",\"v\":{},\"up\":true", js(&format!("{:?}", var_hir_id.0))),
            ExprKind::Borrow { borrow_kind, arg } => { let a = self.expr(*arg); format!("\"k\":\"borrow\",\"m\":{},\"e\":{a}", matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. })) }
            ExprKind::RawBorrow { arg, .. } => { let a = self.expr(*arg); format!("\"k\":\"rawborrow\",\"e\":{a}") }
            ExprKind::Reborrow { source, .. } => { let a = self.expr(*source); format!("\"k\":\"reborrow\",\"e\":{a}") }
            ExprKind::Break { label, value } => { let a = self.opt(*value); format!("\"k\":\"break\",\"label\":{},\"e\":{a}", js(&format!("{:?}", label))) }
            ExprKind::Continue { label } => format!("\"k\":\"continue\",\"label\":{}", js(&format!("{:?}", label))),
            ExprKind::Return { value } => { let a = self.opt(*value); format!("\"k\":\"return\",\"e\":{a}") }
            ExprKind::ConstBlock { did, .. } => format!("\"k\":\"constblock\",\"p\":{},\"rh\":{}", js(&self.cx.path(*did)), self.cx.dh(*did)),
            ExprKind::Repeat { value, count } => { let a = self.expr(*value); format!("\"k\":\"repeat\",\"e\":{a},\"n\":{}", js(&format!("{}", count))) }
            ExprKind::Array { fields } => { let a = self.exprs(fields); format!("\"k\":\"array\",\"a\":{a}") }
            ExprKind::Tuple { fields } => { let a = self.exprs(fields); format!("\"k\":\"tuple\",\"a\":{a}") }
            ExprKind::Adt(b) => {
                let var = &b.adt_def.variants()[b.variant_index];
                let mut v = vec![];
                for f in b.fields.iter() {
                    let n = var.fields[f.name].name.to_string();
                    let x = self.expr(f.expr);
                    v.push(format!("[{},{}]", js(&n), x));
                }
                let base = match &b.base { AdtExprBase::Base(f) => self.expr(f.base), _ => "null".into() };
                format!("\"k\":\"adt\",\"p\":{},\"enum\":{},\"v\":{},\"f\":[{}],\"base\":{}", js(&self.cx.path(b.adt_def.did())), b.adt_def.is_enum(), js(var.name.as_str()), v.join(","), base)
            }
            ExprKind::Closure(c) => {
                let p = self.cx.path(c.closure_id.to_def_id());
                let u = self.exprs(&c.upvars);
                let dh = self.cx.dh(c.closure_id.to_def_id());
                format!("\"k\":\"closure\",\"p\":{},\"h\":{},\"up\":{}", js(&p), dh, u)
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind as L;
                let v = match lit.node {
                    L::Str(s, _) => format!("\"lk\":\"str\",\"v\":{}", js(s.as_str())),
                    L::ByteStr(b, _) | L::CStr(b, _) => format!("\"lk\":\"bytes\",\"v\":[{}]", b.as_byte_str().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
                    L::Byte(b) => format!("\"lk\":\"int\",\"v\":\"{}\"", b),
                    L::Char(c) => format!("\"lk\":\"char\",\"v\":{}", js(&c.to_string())),
                    L::Int(i, _) => format!("\"lk\":\"int\",\"v\":\"{}{}\"", if *neg { "-" } else { "" }, i.get()),
                    L::Bool(b) => format!("\"lk\":\"bool\",\"v\":{}", b),
                    _ => format!("\"lk\":\"other\",\"v\":{}", js(&format!("{:?}", lit.node))),
                };
                format!("\"k\":\"lit\",{v}")
            }
            ExprKind::NonHirLiteral { lit, .. } => format!("\"k\":\"lit\",\"lk\":\"int\",\"v\":{}", js(&format!("{}", lit.to_bits_unchecked()))),
            ExprKind::ZstLiteral { .. } => { let f = self.fndef(e.ty); format!("\"k\":\"zst\",{f}") }
            ExprKind::NamedConst { def_id, args, .. } => {
                let p = self.cx.path(*def_id);
                let tcx = self.cx.tcx;
                let ea = tcx.erase_and_anonymize_regions(*args);
                let mut extra = String::new();
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, *def_id, ea) {
                    let rp = self.cx.path(inst.def_id());
                    let _ = write!(extra, ",\"res\":{},\"rh\":{},\"rlocal\":{}", js(&rp), self.cx.dh(inst.def_id()), inst.def_id().is_local());
                }
                if let Some(tr) = tcx.trait_of_assoc(*def_id) { let _ = write!(extra, ",\"trait\":{}", js(&self.cx.path(tr))); }
                let a = self.cx.args(args);
                format!("\"k\":\"const\",\"p\":{},\"ga\":{},\"name\":{}{}", js(&p), a, js(tcx.opt_item_name(*def_id).map(|s| s.to_string()).unwrap_or_default().as_str()), extra)
            }
            ExprKind::ConstParam { param, .. } => format!("\"k\":\"constparam\",\"n\":{}", js(param.name.as_str())),
            ExprKind::StaticRef { def_id, .. } => format!("\"k\":\"static\",\"p\":{}", js(&self.cx.path(*def_id))),
            ExprKind::ThreadLocalRef(d) => format!("\"k\":\"static\",\"p\":{}", js(&self.cx.path(*d))),
            _ => format!("\"k\":\"unknown\",\"d\":{}", js(&format!("{:?}", e.kind).chars().take(80).collect::<String>())),
        };
        let m = if e.span.from_expansion() { self.cx.macro_name(e.span).map(|n| format!(",\"mac\":{}", js(&n))).unwrap_or_default() } else { String::new() };
        format!("{{{},\"t\":{},\"sp\":{}{}}}", inner, t, self.cx.span(e.span), m)
    }
    fn pats(&mut self, ps: &[Pat<'tcx>]) -> String {
        let v: Vec<String> = ps.iter().map(|p| self.pat(p)).collect();
        format!("[{}]", v.join(","))
    }
    fn fpats(&mut self, t: Ty<'tcx>, vi: Option<rustc_abi::VariantIdx>, ps: &[FieldPat<'tcx>]) -> String {
        let mut v = vec![];
        for fp in ps {
            let n = match t.kind() {
                ty::Adt(d, _) => d.variants()[vi.unwrap_or(rustc_abi::VariantIdx::from_u32(0))].fields[fp.field].name.to_string(),
                _ => fp.field.index().to_string(),
            };
            let p = self.pat(&fp.pattern);
            v.push(format!("[{},{}]", js(&n), p));
        }
        format!("[{}]", v.join(","))
    }
    fn pat(&mut self, p: &Pat<'tcx>) -> String {
        let t = self.cx.ty(p.ty);
        let tcx = self.cx.tcx;
        let inner = match &p.kind {
            PatKind::Wild | PatKind::Missing => "\"k\":\"wild\"".to_string(),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                let s = subpattern.as_ref().map(|p| self.pat(p)).unwrap_or("null".into());
                let br = match mode.0 { rustc_ast::ByRef::Yes(_, m) => if m.is_mut() { "\"mut\"" } else { "\"ref\"" }, _ => "null" };
                format!("\"k\":\"bind\",\"n\":{},\"v\":{},\"ref\":{},\"sub\":{}", js(name.as_str()), js(&format!("{:?}", var.0)), br, s)
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let f = self.fpats(p.ty, Some(*variant_index), subpatterns);
                format!("\"k\":\"variant\",\"p\":{},\"v\":{},\"f\":{}", js(&self.cx.path(adt_def.did())), js(adt_def.variants()[*variant_index].name.as_str()), f)
            }
            PatKind::Leaf { subpatterns } => { let f = self.fpats(p.ty, None, subpatterns); format!("\"k\":\"leaf\",\"f\":{}", f) }
            PatKind::Deref { subpattern, .. } => { let s = self.pat(subpattern); format!("\"k\":\"deref\",\"sub\":{}", s) }
            PatKind::DerefPattern { subpattern, .. } => { let s = self.pat(subpattern); format!("\"k\":\"deref\",\"sub\":{}", s) }
            PatKind::Constant { value } => {
                let v = if let Some(b) = value.try_to_raw_bytes(tcx) { format!("\"lk\":\"str\",\"v\":{}", js(&String::from_utf8_lossy(b))) }
                    else if p.ty.is_bool() { format!("\"lk\":\"bool\",\"v\":{}", value.try_to_bool().unwrap_or(false)) }
                    else if let Some(b) = value.try_to_bits(tcx, self.env) {
                        if p.ty.is_char() { format!("\"lk\":\"char\",\"v\":{}", js(&char::from_u32(b as u32).map(|c| c.to_string()).unwrap_or_default())) }
                        else { format!("\"lk\":\"int\",\"v\":{}", js(&format!("{}", b))) } }
                    else { format!("\"lk\":\"other\",\"v\":{}", js(&format!("{}", value))) };
                format!("\"k\":\"const\",{v}")
            }
            PatKind::Range(r) => format!("\"k\":\"range\",\"d\":{}", js(&format!("{:?}", r))),
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                let a = self.pats(prefix);
                let s = slice.as_ref().map(|p| self.pat(p)).unwrap_or("null".into());
                let b = self.pats(suffix);
                format!("\"k\":\"slice\",\"pre\":{a},\"mid\":{s},\"suf\":{b}")
            }
            PatKind::Or { pats } => { let a = self.pats(pats); format!("\"k\":\"or\",\"a\":{a}") }
            _ => format!("\"k\":\"unknown\",\"d\":{}", js(&format!("{:?}", p.kind).chars().take(80).collect::<String>())),
        };
        format!("{{{},\"t\":{}}}", inner, t)
    }
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let dir = match std::env::var("VERIF_THIR_DIR") { Ok(d) => d, _ => return Compilation::Continue };
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_js: vec![] };
        let mut bodies = vec![];
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        for d in owners {
            let did = d.to_def_id();
            let kind = tcx.def_kind(did);
            let (thir, root) = match tcx.thir_body(d) { Ok(x) => x, Err(_) => continue };
            let thir = thir.borrow();
            let env = ty::TypingEnv::post_analysis(tcx, did);
            let path = cx.path(did);
            let span = cx.span(tcx.def_span(did));
            let derived = tcx.impl_of_assoc(did).map(|im| tcx.is_automatically_derived(im)).unwrap_or(false);
            let vis = if matches!(kind, DefKind::Fn | DefKind::AssocFn) { tcx.visibility(did).is_public() } else { false };
            let parent = cx.path(tcx.parent(did));
            let mut extra = format!(",\"h\":{}", cx.dh(did));
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let _ = write!(extra, ",\"impl_self\":{}", cx.ty(st));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(extra, ",\"impl_trait\":{},\"impl_trait_args\":{}", js(&cx.path(tr.def_id)), cx.args(tr.args));
                }
            }
            if let Some(tr) = tcx.trait_of_assoc(did) { let _ = write!(extra, ",\"in_trait\":{}", js(&cx.path(tr))); }
            let gens: Vec<String> = ty::GenericArgs::identity_for_item(tcx, did).iter().map(|g| js(&format!("{}", g))).collect();
            let mut b = Body { cx: &mut cx, thir: &thir, env };
            let mut ps = vec![];
            for p in thir.params.iter() {
                let pt = b.cx.ty(p.ty);
                let pp = p.pat.as_ref().map(|p| b.pat(p)).unwrap_or("null".into());
                ps.push(format!("{{\"t\":{pt},\"pat\":{pp}}}"));
            }
            let e = b.expr(root);
            bodies.push(format!("{{\"path\":{},\"id\":{},\"kind\":{},\"span\":{},\"pub\":{},\"derived\":{},\"parent\":{},\"generics\":[{}],\"params\":[{}],\"body\":{}{}}}",
                js(&path), d.local_def_index.as_u32(), js(&format!("{:?}", kind)), span, vis, derived, js(&parent), gens.join(","), ps.join(","), e, extra));
        }
        // struct definitions
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                let ad = tcx.adt_def(did);
                let mut vs = vec![];
                for v in ad.variants() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let ft = cx.ty(ft);
                        fs.push(format!("[{},{},{}]", js(f.name.as_str()), ft, f.vis.is_public()));
                    }
                    vs.push(format!("{{\"n\":{},\"f\":[{}]}}", js(v.name.as_str()), fs.join(",")));
                }
                adts.push(format!("{{\"p\":{},\"enum\":{},\"v\":[{}]}}", js(&cx.path(did)), ad.is_enum(), vs.join(",")));
            }
        }
        let test = tcx.sess.opts.test;
        let out = format!("{{\"crate\":{},\"test\":{},\"types\":[{}],\"adts\":[{}],\"bodies\":[{}]}}", js(&krate), test, cx.ty_js.join(",\n"), adts.join(",\n"), bodies.join(",\n"));
        let f = format!("{}/{}.json", dir, krate);
        let tmp = format!("{}.{}.tmp", f, std::process::id());
        std::fs::write(&tmp, out).expect("write thir");
        std::fs::rename(&tmp, &f).expect("rename thir");
        Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
