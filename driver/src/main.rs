//! factdump: a rustc driver that type-checks a crate from source and writes, as JSON, the typed
//! program (THIR: resolved callees, adjusted types, patterns, constants) of every body in it.
//! Used as RUSTC_WORKSPACE_WRAPPER. Nothing of the analysed crate is executed.
//!
//! Environment:  FACTDUMP_OUT=<dir>          where <crate>.json is written
//!               FACTDUMP_CRATES=a,b,c       crates to dump; others are compiled as usual
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir;
use rustc_middle::thir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

struct J(String);
impl J {
    fn s(x: &str) -> String {
        let mut o = String::with_capacity(x.len() + 2);
        o.push('"');
        for c in x.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                '\t' => o.push_str("\\t"),
                '\r' => o.push_str("\\r"),
                c if (c as u32) < 0x20 => {
                    let _ = write!(o, "\\u{:04x}", c as u32);
                }
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    consts: HashMap<DefId, String>,
    adts: HashMap<DefId, String>,
}

struct Body<'a, 'tcx> {
    d: &'a mut Dump<'tcx>,
    thir: &'a Thir<'tcx>,
    owner: LocalDefId,
}

fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn opt(v: Option<String>) -> String {
    v.unwrap_or_else(|| "null".into())
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn adt_name(&mut self, a: ty::AdtDef<'tcx>) -> String {
        let p = self.path(a.did());
        if !self.adts.contains_key(&a.did()) {
            self.adts.insert(a.did(), String::new());
            let kind = if a.is_enum() {
                "enum"
            } else if a.is_union() {
                "union"
            } else {
                "struct"
            };
            let mut vs = vec![];
            for (i, v) in a.variants().iter_enumerated() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let t = self.tcx.type_of(f.did).instantiate_identity();
                    let t = with_no_trimmed_paths!(format!("{:?}", t));
                    fs.push(format!(
                        "{{\"name\":{},\"ty\":{}}}",
                        J::s(f.name.as_str()),
                        J::s(&t)
                    ));
                }
                let discr = if a.is_enum() {
                    let d = a.discriminant_for_variant(self.tcx, i);
                    format!("\"{}\"", d.val)
                } else {
                    "null".into()
                };
                vs.push(format!(
                    "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                    J::s(v.name.as_str()),
                    discr,
                    arr(fs)
                ));
            }
            let s = format!(
                "{{\"path\":{},\"kind\":\"{}\",\"local\":{},\"variants\":{}}}",
                J::s(&p),
                kind,
                a.did().is_local(),
                arr(vs)
            );
            self.adts.insert(a.did(), s);
        }
        p
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = with_no_trimmed_paths!(t.to_string());
        let mut extra = String::new();
        match t.kind() {
            ty::Bool => extra.push_str(",\"k\":\"bool\""),
            ty::Char => extra.push_str(",\"k\":\"char\""),
            ty::Int(_) => extra.push_str(",\"k\":\"int\""),
            ty::Uint(_) => extra.push_str(",\"k\":\"uint\""),
            ty::Float(_) => extra.push_str(",\"k\":\"float\""),
            ty::Str => extra.push_str(",\"k\":\"str\""),
            ty::Never => extra.push_str(",\"k\":\"never\""),
            ty::Adt(a, args) => {
                let p = self.adt_name(*a);
                let xs: Vec<_> = args.types().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(extra, ",\"k\":\"adt\",\"adt\":{},\"args\":{}", J::s(&p), arr(xs));
            }
            ty::Ref(_, x, m) => {
                let x = self.ty(*x);
                let _ = write!(extra, ",\"k\":\"ref\",\"mut\":{},\"args\":[{}]", m.is_mut(), x);
            }
            ty::RawPtr(x, m) => {
                let x = self.ty(*x);
                let _ = write!(extra, ",\"k\":\"ptr\",\"mut\":{},\"args\":[{}]", m.is_mut(), x);
            }
            ty::Slice(x) => {
                let x = self.ty(*x);
                let _ = write!(extra, ",\"k\":\"slice\",\"args\":[{}]", x);
            }
            ty::Array(x, n) => {
                let x = self.ty(*x);
                let n = n
                    .try_to_target_usize(self.tcx)
                    .map(|n| n.to_string())
                    .unwrap_or("null".into());
                let _ = write!(extra, ",\"k\":\"array\",\"args\":[{}],\"len\":{}", x, n);
            }
            ty::Tuple(xs) => {
                let xs: Vec<_> = xs.iter().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(extra, ",\"k\":\"tuple\",\"args\":{}", arr(xs));
            }
            ty::FnDef(d, _) => {
                let p = self.path(*d);
                let _ = write!(extra, ",\"k\":\"fndef\",\"fn\":{}", J::s(&p));
            }
            ty::Closure(..) => extra.push_str(",\"k\":\"closure\""),
            ty::Param(p) => {
                let _ = write!(extra, ",\"k\":\"param\",\"name\":{}", J::s(p.name.as_str()));
            }
            ty::Alias(..) => extra.push_str(",\"k\":\"alias\""),
            ty::Dynamic(..) => extra.push_str(",\"k\":\"dyn\""),
            _ => extra.push_str(",\"k\":\"other\""),
        }
        self.ty_out[i] = format!("{{\"s\":{}{}}}", J::s(&s), extra);
        i
    }
    fn scalar(&self, t: Ty<'tcx>, bits: u128, size: u64) -> String {
        match t.kind() {
            ty::Bool => format!("{{\"t\":\"bool\",\"v\":{}}}", bits != 0),
            ty::Uint(_) => format!("{{\"t\":\"int\",\"v\":\"{}\"}}", bits),
            ty::Int(_) => {
                let sh = 128 - size * 8;
                let v = ((bits << sh) as i128) >> sh;
                format!("{{\"t\":\"int\",\"v\":\"{}\"}}", v)
            }
            ty::Float(f) => {
                let v = match f {
                    ty::FloatTy::F64 => f64::from_bits(bits as u64),
                    ty::FloatTy::F32 => f32::from_bits(bits as u32) as f64,
                    _ => 0.0,
                };
                format!("{{\"t\":\"float\",\"v\":\"{:?}\"}}", v)
            }
            ty::Char => format!("{{\"t\":\"char\",\"v\":\"{}\"}}", bits),
            _ => format!("{{\"t\":\"bits\",\"v\":\"{}\"}}", bits),
        }
    }
    fn named_const(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, t: Ty<'tcx>) -> String {
        if self.tcx.generics_of(did).requires_monomorphization(self.tcx) {
            // associated const of a (possibly generic) trait/impl: try to resolve it
            let env = ty::TypingEnv::fully_monomorphized();
            if args.iter().any(|a| a.to_string().contains("/#")) {
                return "null".into();
            }
            let _ = env;
            return "null".into();
        }
        if let Ok(v) = self.tcx.const_eval_poly(did) {
            if let Some(mir::interpret::Scalar::Int(i)) = v.try_to_scalar() {
                let sz = i.size();
                return self.scalar(t, i.to_bits(sz), sz.bytes());
            }
        }
        "null".into()
    }
    fn const_path(&mut self, did: DefId) -> String {
        self.path(did)
    }
    fn fn_ref(&mut self, owner: LocalDefId, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.path(did);
        let ga: Vec<_> = args.types().map(|t| self.ty(t).to_string()).collect();
        let mut res = "null".to_string();
        let mut tr = "null".to_string();
        if let Some(t) = tcx.trait_of_assoc(did) {
            tr = J::s(&self.path(t));
        }
        let env = ty::TypingEnv::post_analysis(tcx, owner.to_def_id());
        let args = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, did, args) {
            let rd = inst.def_id();
            if rd != did {
                res = J::s(&self.path(rd));
            }
        }
        let local = did.is_local();
        format!(
            "{{\"k\":\"fn\",\"path\":{},\"res\":{},\"trait\":{},\"ga\":{},\"name\":{},\"local\":{}}}",
            J::s(&p),
            res,
            tr,
            arr(ga),
            J::s(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default().as_str()),
            local
        )
    }
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("[{},{}]", J::s(&f), lo.line)
    }
}

impl<'a, 'tcx> Body<'a, 'tcx> {
    fn var(&self, v: LocalVarId) -> String {
        format!("\"{}:{}\"", v.0.owner.def_id.local_def_index.as_u32(), v.0.local_id.as_u32())
    }
    fn blk(&mut self, id: BlockId) -> String {
        let b = &self.thir[id];
        let mut ss = vec![];
        for s in b.stmts.iter() {
            match &self.thir[*s].kind {
                StmtKind::Expr { expr, .. } => {
                    ss.push(format!("{{\"k\":\"expr\",\"e\":{}}}", self.expr(*expr)))
                }
                StmtKind::Let { pattern, initializer, else_block, .. } => {
                    let p = self.pat(pattern);
                    let i = opt(initializer.map(|e| self.expr(e)));
                    let e = opt(else_block.map(|b| self.blk(b)));
                    ss.push(format!("{{\"k\":\"let\",\"p\":{},\"init\":{},\"els\":{}}}", p, i, e))
                }
            }
        }
        let e = opt(b.expr.map(|e| self.expr(e)));
        let us = matches!(b.safety_mode, BlockSafety::ExplicitUnsafe(_));
        format!(
            "{{\"k\":\"block\",\"lbl\":{},\"stmts\":{},\"e\":{},\"unsafe\":{}}}",
            if b.targeted_by_break {
                format!("{}", b.region_scope.local_id.as_u32())
            } else {
                "null".into()
            },
            arr(ss),
            e,
            us
        )
    }
    fn pat(&mut self, p: &Pat<'tcx>) -> String {
        let t = self.d.ty(p.ty);
        let body = match &p.kind {
            PatKind::Wild | PatKind::Missing | PatKind::Never => "\"k\":\"wild\"".to_string(),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                let sub = opt(subpattern.as_ref().map(|s| self.pat(s)));
                let by = match mode.0 {
                    rustc_ast::ByRef::No => "val".to_string(),
                    rustc_ast::ByRef::Yes(_, m) => {
                        if m.is_mut() {
                            "refmut".into()
                        } else {
                            "ref".to_string()
                        }
                    }
                };
                format!(
                    "\"k\":\"bind\",\"name\":{},\"var\":{},\"by\":\"{}\",\"mut\":{},\"sub\":{}",
                    J::s(name.as_str()),
                    self.var(*var),
                    by,
                    mode.1.is_mut(),
                    sub
                )
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let adt = self.d.adt_name(*adt_def);
                let v = adt_def.variant(*variant_index);
                let mut fs = vec![];
                for f in subpatterns {
                    let n = v.fields[f.field].name.to_string();
                    fs.push(format!("[{},{}]", J::s(&n), self.pat(&f.pattern)));
                }
                format!(
                    "\"k\":\"variant\",\"adt\":{},\"variant\":{},\"fields\":{}",
                    J::s(&adt),
                    J::s(v.name.as_str()),
                    arr(fs)
                )
            }
            PatKind::Leaf { subpatterns } => {
                let mut fs = vec![];
                for f in subpatterns {
                    let n = match p.ty.kind() {
                        ty::Adt(a, _) if !a.is_enum() => {
                            a.non_enum_variant().fields[f.field].name.to_string()
                        }
                        ty::Adt(a, _) => {
                            a.variants().iter().next().unwrap().fields[f.field].name.to_string()
                        }
                        _ => f.field.as_u32().to_string(),
                    };
                    fs.push(format!("[{},{}]", J::s(&n), self.pat(&f.pattern)));
                }
                format!("\"k\":\"leaf\",\"fields\":{}", arr(fs))
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => {
                format!("\"k\":\"deref\",\"sub\":{}", self.pat(subpattern))
            }
            PatKind::Constant { value } => {
                format!("\"k\":\"const\",\"v\":{}", self.value(*value))
            }
            PatKind::Range(r) => {
                let mut b = |x: &PatRangeBoundary<'tcx>| match x {
                    PatRangeBoundary::Finite(v) => {
                        self.value(ty::Value { ty: r.ty, valtree: *v })
                    }
                    _ => "null".to_string(),
                };
                let lo = b(&r.lo);
                let hi = b(&r.hi);
                let inc = matches!(r.end, rustc_hir::RangeEnd::Included);
                format!("\"k\":\"range\",\"lo\":{},\"hi\":{},\"incl\":{}", lo, hi, inc)
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                let a = prefix.iter().map(|p| self.pat(p)).collect();
                let m = opt(slice.as_ref().map(|p| self.pat(p)));
                let z = suffix.iter().map(|p| self.pat(p)).collect();
                format!(
                    "\"k\":\"slice\",\"pre\":{},\"mid\":{},\"post\":{}",
                    arr(a),
                    m,
                    arr(z)
                )
            }
            PatKind::Or { pats } => {
                let a = pats.iter().map(|p| self.pat(p)).collect();
                format!("\"k\":\"or\",\"pats\":{}", arr(a))
            }
            PatKind::Guard { subpattern, condition } => {
                let s = self.pat(subpattern);
                let c = self.expr(*condition);
                format!("\"k\":\"guard\",\"sub\":{},\"cond\":{}", s, c)
            }
            PatKind::Error(_) => "\"k\":\"error\"".to_string(),
        };
        format!("{{{},\"t\":{}}}", body, t)
    }
    fn value(&mut self, v: ty::Value<'tcx>) -> String {
        let t = v.ty;
        if let Some(leaf) = v.valtree.try_to_leaf() {
            let sz = leaf.size();
            return self.d.scalar(t, leaf.to_bits(sz), sz.bytes());
        }
        let s = with_no_trimmed_paths!(v.to_string());
        format!("{{\"t\":\"str\",\"v\":{}}}", J::s(&s))
    }
    fn exprs(&mut self, v: &[ExprId]) -> String {
        let a = v.iter().map(|e| self.expr(*e)).collect();
        arr(a)
    }
    fn expr(&mut self, id: ExprId) -> String {
        let mut id = id;
        let mut lbl: Option<u32> = None;
        while let ExprKind::Scope { region_scope, value, .. } = &self.thir[id].kind {
            lbl = Some(region_scope.local_id.as_u32());
            id = *value;
        }
        let e = &self.thir[id];
        let t = self.d.ty(e.ty);
        let sp = self.d.span(e.span);
        let body: String = match &e.kind {
            ExprKind::Scope { .. } => unreachable!(),
            ExprKind::If { cond, then, else_opt, .. } => {
                let c = self.expr(*cond);
                let a = self.expr(*then);
                let b = opt(else_opt.map(|e| self.expr(e)));
                format!("\"k\":\"if\",\"c\":{},\"a\":{},\"b\":{}", c, a, b)
            }
            ExprKind::Call { fun, args, from_hir_call, .. } => {
                let f = self.expr(*fun);
                let a = self.exprs(args);
                format!("\"k\":\"call\",\"f\":{},\"args\":{},\"hir\":{}", f, a, from_hir_call)
            }
            ExprKind::ByUse { expr, .. } => format!("\"k\":\"use\",\"e\":{}", self.expr(*expr)),
            ExprKind::Deref { arg } => format!("\"k\":\"deref\",\"e\":{}", self.expr(*arg)),
            ExprKind::Binary { op, lhs, rhs } => {
                let a = self.expr(*lhs);
                let b = self.expr(*rhs);
                format!("\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}", op, a, b)
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                let a = self.expr(*lhs);
                let b = self.expr(*rhs);
                format!("\"k\":\"logic\",\"op\":\"{:?}\",\"a\":{},\"b\":{}", op, a, b)
            }
            ExprKind::Unary { op, arg } => {
                format!("\"k\":\"un\",\"op\":\"{:?}\",\"e\":{}", op, self.expr(*arg))
            }
            ExprKind::Cast { source } => format!("\"k\":\"cast\",\"e\":{}", self.expr(*source)),
            ExprKind::ValueExpr { source }
            | ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::PlaceUnwrapUnsafeBinder { source }
            | ExprKind::ValueUnwrapUnsafeBinder { source }
            | ExprKind::WrapUnsafeBinder { source } => {
                format!("\"k\":\"use\",\"e\":{}", self.expr(*source))
            }
            ExprKind::Reborrow { source, .. } => {
                format!("\"k\":\"use\",\"e\":{}", self.expr(*source))
            }
            ExprKind::NeverToAny { source } => {
                format!("\"k\":\"never\",\"e\":{}", self.expr(*source))
            }
            ExprKind::PointerCoercion { cast, source, .. } => {
                format!("\"k\":\"coerce\",\"c\":\"{:?}\",\"e\":{}", cast, self.expr(*source))
            }
            ExprKind::Loop { body } => {
                format!(
                    "\"k\":\"loop\",\"lbl\":{},\"e\":{}",
                    opt(lbl.map(|l| l.to_string())),
                    self.expr(*body)
                )
            }
            ExprKind::Let { expr, pat } => {
                let x = self.expr(*expr);
                let p = self.pat(pat);
                format!("\"k\":\"let\",\"e\":{},\"p\":{}", x, p)
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                let s = self.expr(*scrutinee);
                let mut v = vec![];
                for a in arms.iter() {
                    let arm = &self.thir[*a];
                    let p = self.pat(&arm.pattern);
                    let g = opt(arm.guard.map(|g| self.expr(g)));
                    let b = self.expr(arm.body);
                    v.push(format!("{{\"p\":{},\"g\":{},\"b\":{}}}", p, g, b));
                }
                format!(
                    "\"k\":\"match\",\"src\":{},\"e\":{},\"arms\":{}",
                    J::s(&format!("{:?}", match_source)),
                    s,
                    arr(v)
                )
            }
            ExprKind::Block { block } => {
                let b = self.blk(*block);
                return format!("{{\"t\":{},\"sp\":{},{}", t, sp, &b[1..]);
            }
            ExprKind::Assign { lhs, rhs } => {
                let a = self.expr(*lhs);
                let b = self.expr(*rhs);
                format!("\"k\":\"assign\",\"a\":{},\"b\":{}", a, b)
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                let a = self.expr(*lhs);
                let b = self.expr(*rhs);
                let op: mir::BinOp = (*op).into();
                format!("\"k\":\"assignop\",\"op\":\"{:?}\",\"a\":{},\"b\":{}", op, a, b)
            }
            ExprKind::Field { lhs, variant_index, name } => {
                let lt = self.thir[*lhs].ty;
                let n = match lt.kind() {
                    ty::Adt(a, _) => a.variant(*variant_index).fields[*name].name.to_string(),
                    _ => name.as_u32().to_string(),
                };
                let a = self.expr(*lhs);
                format!("\"k\":\"field\",\"name\":{},\"e\":{}", J::s(&n), a)
            }
            ExprKind::Index { lhs, index } => {
                let a = self.expr(*lhs);
                let b = self.expr(*index);
                format!("\"k\":\"index\",\"e\":{},\"i\":{}", a, b)
            }
            ExprKind::VarRef { id } => format!("\"k\":\"var\",\"var\":{}", self.var(*id)),
            ExprKind::UpvarRef { var_hir_id, .. } => {
                format!("\"k\":\"var\",\"up\":true,\"var\":{}", self.var(*var_hir_id))
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                let m = matches!(borrow_kind, mir::BorrowKind::Mut { .. });
                format!("\"k\":\"borrow\",\"mut\":{},\"e\":{}", m, self.expr(*arg))
            }
            ExprKind::RawBorrow { mutability, arg } => {
                format!(
                    "\"k\":\"rawborrow\",\"mut\":{},\"e\":{}",
                    mutability.is_mut(),
                    self.expr(*arg)
                )
            }
            ExprKind::Break { label, value } => {
                let v = opt(value.map(|e| self.expr(e)));
                format!("\"k\":\"break\",\"lbl\":{},\"e\":{}", label.local_id.as_u32(), v)
            }
            ExprKind::Continue { label } => {
                format!("\"k\":\"continue\",\"lbl\":{}", label.local_id.as_u32())
            }
            ExprKind::Return { value } => {
                format!("\"k\":\"return\",\"e\":{}", opt(value.map(|e| self.expr(e))))
            }
            ExprKind::Repeat { value, count } => {
                let n = count
                    .try_to_target_usize(self.d.tcx)
                    .map(|n| n.to_string())
                    .unwrap_or("null".into());
                format!("\"k\":\"repeat\",\"n\":{},\"e\":{}", n, self.expr(*value))
            }
            ExprKind::Array { fields } => format!("\"k\":\"array\",\"es\":{}", self.exprs(fields)),
            ExprKind::Tuple { fields } => format!("\"k\":\"tuple\",\"es\":{}", self.exprs(fields)),
            ExprKind::Adt(a) => {
                let adt = self.d.adt_name(a.adt_def);
                let v = a.adt_def.variant(a.variant_index);
                let mut fs = vec![];
                for f in a.fields.iter() {
                    let n = v.fields[f.name].name.to_string();
                    fs.push(format!("[{},{}]", J::s(&n), self.expr(f.expr)));
                }
                let base = match &a.base {
                    AdtExprBase::Base(b) => self.expr(b.base),
                    _ => "null".into(),
                };
                let all: Vec<_> = v.fields.iter().map(|f| J::s(f.name.as_str())).collect();
                format!(
                    "\"k\":\"adt\",\"adt\":{},\"variant\":{},\"fields\":{},\"base\":{},\"all\":{}",
                    J::s(&adt),
                    J::s(v.name.as_str()),
                    arr(fs),
                    base,
                    arr(all)
                )
            }
            ExprKind::Closure(c) => {
                let sub = c.closure_id;
                let mv = {
                    let hir = self.d.tcx.hir_node_by_def_id(sub);
                    match hir {
                        rustc_hir::Node::Expr(rustc_hir::Expr {
                            kind: rustc_hir::ExprKind::Closure(c),
                            ..
                        }) => matches!(c.capture_clause, rustc_hir::CaptureBy::Value { .. }),
                        _ => false,
                    }
                };
                let b = dump_body(self.d, sub).unwrap_or_else(|| "null".into());
                format!("\"k\":\"closure\",\"move\":{},\"fn\":{}", mv, b)
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind::*;
                match &lit.node {
                    Str(s, _) => {
                        format!(
                            "\"k\":\"lit\",\"v\":{{\"t\":\"str\",\"v\":{}}}",
                            J::s(s.as_str())
                        )
                    }
                    ByteStr(b, _) => {
                        let v: Vec<_> =
                            b.as_byte_str().iter().map(|x| x.to_string()).collect();
                        format!("\"k\":\"lit\",\"v\":{{\"t\":\"bytes\",\"v\":{}}}", arr(v))
                    }
                    Byte(b) => {
                        format!("\"k\":\"lit\",\"v\":{{\"t\":\"int\",\"v\":\"{}\"}}", b)
                    }
                    Char(c) => format!(
                        "\"k\":\"lit\",\"v\":{{\"t\":\"char\",\"v\":\"{}\"}}",
                        *c as u32
                    ),
                    Int(n, _) => {
                        let isf = e.ty.is_floating_point();
                        format!(
                            "\"k\":\"lit\",\"v\":{{\"t\":\"{}\",\"v\":\"{}{}\"}}",
                            if isf { "float" } else { "int" },
                            if *neg { "-" } else { "" },
                            n.get()
                        )
                    }
                    Float(s, _) => format!(
                        "\"k\":\"lit\",\"v\":{{\"t\":\"float\",\"v\":\"{}{}\"}}",
                        if *neg { "-" } else { "" },
                        s.as_str().replace('_', "")
                    ),
                    Bool(b) => format!("\"k\":\"lit\",\"v\":{{\"t\":\"bool\",\"v\":{}}}", b),
                    _ => "\"k\":\"lit\",\"v\":{\"t\":\"?\"}".to_string(),
                }
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                let sz = lit.size();
                let s = self.d.scalar(e.ty, lit.to_bits(sz), sz.bytes());
                format!("\"k\":\"lit\",\"v\":{}", s)
            }
            ExprKind::ZstLiteral { .. } => match e.ty.kind() {
                ty::FnDef(did, args) => {
                    let s = self.d.fn_ref(self.owner, *did, args.skip_binder());
                    return format!("{{\"t\":{},\"sp\":{},{}", t, sp, &s[1..]);
                }
                _ => "\"k\":\"zst\"".to_string(),
            },
            ExprKind::NamedConst { def_id, args, .. } => {
                let p = self.d.const_path(*def_id);
                let mut v = self.d.named_const(*def_id, args, e.ty);
                let mut res = "null".to_string();
                if self.d.tcx.trait_of_assoc(*def_id).is_some() {
                    let env =
                        ty::TypingEnv::post_analysis(self.d.tcx, self.owner.to_def_id());
                    let ar = self.d.tcx.erase_and_anonymize_regions(*args);
                    if let Ok(Some(inst)) =
                        ty::Instance::try_resolve(self.d.tcx, env, *def_id, ar)
                    {
                        let rd = inst.def_id();
                        res = J::s(&self.d.path(rd));
                        if v == "null" {
                            v = self.d.named_const(rd, inst.args, e.ty);
                        }
                    }
                }
                let ga: Vec<_> = args.types().map(|t| self.d.ty(t).to_string()).collect();
                format!(
                    "\"k\":\"nconst\",\"path\":{},\"res\":{},\"ga\":{},\"v\":{}",
                    J::s(&p),
                    res,
                    arr(ga),
                    v
                )
            }
            ExprKind::ConstParam { param, .. } => {
                format!("\"k\":\"cparam\",\"name\":{}", J::s(param.name.as_str()))
            }
            ExprKind::StaticRef { def_id, .. } | ExprKind::ThreadLocalRef(def_id) => {
                let p = self.d.path(*def_id);
                format!("\"k\":\"static\",\"path\":{}", J::s(&p))
            }
            other => {
                let s = format!("{:?}", other);
                let s: String = s.chars().take(40).collect();
                format!("\"k\":\"unsupported\",\"what\":{}", J::s(&s))
            }
        };
        let l = match lbl {
            Some(l) => format!(",\"id\":{}", l),
            None => String::new(),
        };
        format!("{{\"t\":{},\"sp\":{}{},{}}}", t, sp, l, body)
    }
}

fn dump_body<'tcx>(d: &mut Dump<'tcx>, did: LocalDefId) -> Option<String> {
    let tcx = d.tcx;
    let tr = tcx.typeck(did);
    if tr.tainted_by_errors.is_some() {
        return None;
    }
    let (thir, root) = tcx.thir_body(did).ok()?;
    let thir = thir.borrow().clone();
    let mut b = Body { d, thir: &thir, owner: did };
    let mut ps = vec![];
    for p in thir.params.iter() {
        match &p.pat {
            Some(pt) => ps.push(b.pat(pt)),
            None => {
                let t = b.d.ty(p.ty);
                ps.push(format!("{{\"k\":\"env\",\"t\":{}}}", t))
            }
        }
    }
    let e = b.expr(root);
    let sp = b.d.span(tcx.def_span(did));
    let rt = match thir.body_type {
        BodyTy::Fn(sig) => b.d.ty(sig.output()).to_string(),
        BodyTy::Const(t) => b.d.ty(t).to_string(),
        _ => "null".into(),
    };
    Some(format!("{{\"params\":{},\"ret\":{},\"sp\":{},\"body\":{}}}", arr(ps), rt, sp, e))
}

fn in_test_module(tcx: TyCtxt<'_>, d: LocalDefId) -> bool {
    let _ = (tcx, d);
    false
}

struct Cb {
    dump: bool,
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if !self.dump {
            return Compilation::Continue;
        }
        let mut d = Dump {
            tcx,
            tys: HashMap::new(),
            ty_out: vec![],
            consts: HashMap::new(),
            adts: HashMap::new(),
        };
        let _ = &d.consts;
        let mut bodies = vec![];
        let mut failed = vec![];
        let mut derived = vec![];
        let mut typefn = vec![];
        for did in tcx.hir_body_owners() {
            let kind = tcx.def_kind(did);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. }
                | DefKind::Static { .. } => {}
                _ => continue,
            }
            if in_test_module(tcx, did) {
                continue;
            }
            let sp = tcx.def_span(did);
            let path = d.path(did.to_def_id());
            let parent = tcx.local_parent(did);
            let mut impl_trait = "null".to_string();
            let mut self_ty = "null".to_string();
            let mut is_derived = false;
            if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                let st = tcx.type_of(parent).instantiate_identity().skip_normalization();
                self_ty = J::s(&with_no_trimmed_paths!(st.to_string()));
                if of_trait {
                    let tr = tcx.impl_trait_ref(parent);
                    let tr = tr.instantiate_identity().skip_normalization();
                    impl_trait = J::s(&d.path(tr.def_id));
                }
                is_derived = tcx.is_automatically_derived(parent.to_def_id());
            }
            if is_derived || sp.ctxt().outer_expn_data().macro_def_id.map_or(false, |m| {
                matches!(tcx.def_kind(m), DefKind::Macro(k) if format!("{:?}", k).contains("DERIVE"))
            }) {
                derived.push(format!(
                    "{{\"path\":{},\"trait\":{},\"self\":{}}}",
                    J::s(&path),
                    impl_trait,
                    self_ty
                ));
                continue;
            }
            match dump_body(&mut d, did) {
                Some(b) => {
                    let vis = tcx.visibility(did.to_def_id()).is_public();
                    let us = matches!(kind, DefKind::Fn | DefKind::AssocFn)
                        && tcx.fn_sig(did).skip_binder().safety().is_unsafe();
                    bodies.push(format!(
                        "{{\"path\":{},\"name\":{},\"kind\":\"{:?}\",\"pub\":{},\"unsafe\":{},\"impl_trait\":{},\"self_ty\":{},\"fn\":{}}}",
                        J::s(&path),
                        J::s(tcx.item_name(did.to_def_id()).as_str()),
                        kind,
                        vis,
                        us,
                        impl_trait,
                        self_ty,
                        b
                    ))
                }
                None => failed.push(J::s(&path)),
            }
        }
        // all local ADTs, even unused ones
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let a = tcx.adt_def(id);
                d.adt_name(a);
            }
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(id) {
                let tr = tcx.impl_trait_ref(id).instantiate_identity().skip_normalization();
                let st = with_no_trimmed_paths!(tr.self_ty().to_string());
                typefn.push(format!(
                    "{{\"trait\":{},\"self\":{},\"derived\":{}}}",
                    J::s(&d.path(tr.def_id)),
                    J::s(&st),
                    tcx.is_automatically_derived(id.to_def_id())
                ));
            }
        }
        let mut adts: Vec<_> = d.adts.values().cloned().collect();
        adts.sort();
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let out = format!(
            "{{\"crate\":{},\"types\":{},\n\"adts\":{},\n\"impls\":{},\n\"derived\":{},\n\"failed\":{},\n\"bodies\":[\n{}\n]}}\n",
            J::s(&name),
            arr(d.ty_out.clone()),
            arr(adts),
            arr(typefn),
            arr(derived),
            arr(failed),
            bodies.join(",\n")
        );
        std::fs::write(format!("{}/{}.json", self.out, name), out).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustcw")) {
        args.remove(1);
    }
    let out = std::env::var("FACTDUMP_OUT").unwrap_or_default();
    let want = std::env::var("FACTDUMP_CRATES").unwrap_or_default();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let dump = !out.is_empty() && want.split(',').any(|w| w == name);
    let mut cb = Cb { dump, out };
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
