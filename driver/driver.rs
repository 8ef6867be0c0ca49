// octfacts: rustc driver that exports the resolved program (types, impls, MIR bodies with
// resolved callees) of the crates under analysis as JSON. It never runs any analysed code.
#![feature(rustc_private)]
#![allow(unused_imports)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate rustc_data_structures;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque, BTreeMap};
use std::fmt::Write as _;
use std::process::Command;

/// library functions that are analysed by a definition in vrt::shadow: (path, with the head of the
/// self type for trait methods; name; which of its generic arguments the definition takes)
const SHADOWS: &[(&str, &str, &[usize])] = &[
    ("core::iter::traits::iterator::Iterator::next@core::iter::adapters::zip::Zip", "zip_next", &[0, 1]),
    ("prim::slice::to_vec", "slice_to_vec", &[0]),
    ("std::collections::hash::map::Entry::or_insert", "entry_or_insert", &[0, 1]),
    ("std::collections::hash::map::Entry::or_insert_with", "entry_or_insert_with", &[0, 1, 3]),
    ("std::collections::hash::map::Entry::or_default", "entry_or_default", &[0, 1]),
    ("std::collections::hash::map::Entry::and_modify", "entry_and_modify", &[0, 1, 3]),
    ("prim::slice::to_owned", "slice_to_vec", &[0]),
    ("alloc::borrow::ToOwned::to_owned@prim::slice", "slice_to_vec", &[0]),
    ("prim::slice::contains", "slice_contains", &[0]),
    ("prim::slice::starts_with", "slice_starts_with", &[0]),
    ("prim::slice::ends_with", "slice_ends_with", &[0]),
    ("prim::slice::fill", "slice_fill", &[0]),
    ("prim::slice::reverse", "slice_reverse", &[0]),
    ("prim::slice::split_first", "slice_split_first", &[0]),
    ("prim::slice::split_last", "slice_split_last", &[0]),
    ("prim::slice::split_at_checked", "slice_split_at_checked", &[0]),
    ("prim::slice::write_copy_of_slice", "slice_write_copy", &[0]),
    ("prim::array::map", "array_map", &[0, 1, 2, 3]),
    ("core::array::from_fn", "array_from_fn", &[0, 1, 2]),
    ("alloc::vec::Vec::extend_from_slice", "vec_extend_from_slice", &[0]),
    ("core::convert::From::from@alloc::vec::Vec@prim::ref", "vec_from_slice", &[0]),
    ("core::iter::traits::collect::FromIterator::from_iter@alloc::vec::Vec", "vec_from_iter", &[0, 1]),
    ("core::iter::traits::collect::Extend::extend@alloc::vec::Vec", "vec_extend", &[0, 2]),
    ("alloc::vec::Vec::pop", "vec_pop", &[0]),
    ("alloc::vec::Vec::truncate", "vec_truncate", &[0]),
    ("alloc::vec::Vec::clear", "vec_clear", &[0]),
    ("alloc::vec::Vec::resize", "vec_resize", &[0]),
    ("core::convert::From::from@alloc::boxed::Box@prim::ref", "box_from_slice", &[0]),
    ("core::iter::traits::collect::FromIterator::from_iter@alloc::boxed::Box", "box_from_iter", &[0, 1]),
    ("core::convert::From::from@alloc::string::String@prim::ref", "string_from_str", &[]),
    ("alloc::borrow::ToOwned::to_owned@prim::str", "string_from_str", &[]),
    ("core::iter::traits::collect::FromIterator::from_iter@alloc::collections::linked_list::LinkedList", "list_from_iter", &[0, 1]),
    ("core::iter::traits::collect::Extend::extend@alloc::collections::linked_list::LinkedList", "list_extend", &[0, 2]),
    ("core::iter::traits::collect::FromIterator::from_iter@std::collections::hash::map::HashMap", "map_from_iter", &[0, 1, 2, 3]),
    ("core::iter::traits::collect::Extend::extend@std::collections::hash::map::HashMap", "map_extend", &[0, 1, 2, 3]),
    ("core::iter::traits::collect::FromIterator::from_iter@std::collections::hash::set::HashSet", "set_from_iter", &[0, 1, 2]),
    ("core::iter::traits::collect::Extend::extend@std::collections::hash::set::HashSet", "set_extend", &[0, 1, 2]),
    ("core::cmp::PartialEq::eq@alloc::string::String@alloc::string::String", "string_eq", &[]),
    ("core::cmp::PartialEq::ne@alloc::string::String@alloc::string::String", "string_ne", &[]),
    ("core::cmp::PartialEq::eq@alloc::string::String@prim::str", "string_eq_str", &[]),
    ("core::cmp::PartialEq::eq@alloc::string::String@prim::ref", "string_eq_ref", &[]),
    ("core::cmp::PartialEq::eq@prim::str@alloc::string::String", "str_eq_string", &[]),
    ("core::cmp::PartialEq::eq@prim::ref@alloc::string::String", "ref_eq_string", &[]),
    ("alloc::string::ToString::to_string@alloc::string::String", "string_from_str", &[]),
    ("alloc::string::ToString::to_string@prim::str", "string_from_str", &[]),
    ("alloc::string::SpecToString::spec_to_string@prim::str", "string_from_str", &[]),
    ("alloc::string::SpecToString::spec_to_string@alloc::string::String", "string_from_string", &[]),
    ("alloc::string::SpecToString::spec_to_string@prim::char", "string_from_charref", &[]),
    ("core::convert::From::from@alloc::string::String@prim::char", "string_from_char", &[]),
    ("core::cmp::PartialEq::eq@alloc::vec::Vec@alloc::vec::Vec", "vec_eq", &[0, 1]),
    ("core::cmp::PartialEq::eq@alloc::vec::Vec@prim::array", "vec_eq_array", &[0, 1, 3]),
    ("prim::slice::first_chunk", "slice_first_chunk", &[0, 1]),
    ("prim::slice::last_chunk", "slice_last_chunk", &[0, 1]),
    ("prim::slice::split_first_chunk", "slice_split_first_chunk", &[0, 1]),
    ("prim::slice::split_last_chunk", "slice_split_last_chunk", &[0, 1]),
    ("prim::slice::fill_with", "slice_fill_with", &[0, 1]),
    ("prim::slice::copy_within", "slice_copy_within", &[0, 1]),
    ("alloc::string::String::is_empty", "string_is_empty", &[]),
    ("alloc::vec::Vec::is_empty", "vec_is_empty", &[0]),
    ("core::convert::From::from@alloc::vec::Vec@prim::array", "vec_from_array", &[0, 1]),
    ("core::convert::TryFrom::try_from@prim::array@alloc::vec::Vec", "array_from_vec", &[0, 2]),
    ("alloc::string::String::push_str", "string_push_str", &[]),
    ("alloc::string::String::push", "string_push", &[]),
    ("alloc::string::String::insert_str", "string_insert_str", &[]),
    ("alloc::string::String::insert", "string_insert", &[]),
    ("alloc::string::String::truncate", "string_truncate", &[]),
    ("alloc::string::String::clear", "string_clear", &[]),
    ("prim::slice::is_ascii", "slice_is_ascii", &[]),
    ("prim::str::is_ascii", "str_is_ascii", &[]),
    ("prim::slice::eq_ignore_ascii_case", "slice_eq_ignore_ascii_case", &[]),
    ("prim::str::eq_ignore_ascii_case", "str_eq_ignore_ascii_case", &[]),
    ("core::iter::traits::iterator::Iterator::count@core::str::iter::Chars", "chars_count", &[]),
    ("core::time::Duration::from_millis", "dur_from_millis", &[]),
    ("core::time::Duration::from_micros", "dur_from_micros", &[]),
    ("core::time::Duration::from_nanos", "dur_from_nanos", &[]),
    ("core::time::Duration::is_zero", "dur_is_zero", &[]),
    ("core::time::Duration::checked_add", "dur_checked_add", &[]),
    ("core::time::Duration::checked_sub", "dur_checked_sub", &[]),
    ("core::time::Duration::saturating_sub", "dur_saturating_sub", &[]),
    ("core::time::Duration::saturating_add", "dur_saturating_add", &[]),
    ("core::time::Duration::abs_diff", "dur_abs_diff", &[]),
];

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jarr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}
fn jobj(v: &[(&str, String)]) -> String {
    let parts: Vec<String> = v.iter().map(|(k, x)| format!("{}:{}", js(k), x)).collect();
    format!("{{{}}}", parts.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    adts: BTreeMap<String, String>,
    adts_done: HashSet<DefId>,
    body_ids: HashMap<(Instance<'tcx>, Option<DefId>, Option<u32>), usize>,
    queue: VecDeque<(Instance<'tcx>, Option<DefId>, Option<u32>, usize)>,
    bodies: Vec<String>,
    skip: Vec<String>,
    max_bodies: usize,
    ty_depth: usize,
    cur_root: Option<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn env(&self, root: Option<DefId>) -> TypingEnv<'tcx> {
        match root {
            Some(d) => TypingEnv::post_analysis(self.tcx, d),
            None => TypingEnv::fully_monomorphized(),
        }
    }

    fn is_target_crate(&self, k: &str) -> bool { k == "oct" || k.starts_with("w_") || k == "witness" }

    fn krate(&self, d: DefId) -> String { self.tcx.crate_name(d.krate).to_string() }

    fn dpath(&self, d: DefId) -> String {
        // module path with impls replaced by their self type
        let tcx = self.tcx;
        if let Some(assoc) = tcx.opt_associated_item(d) {
            let parent = tcx.parent(d);
            match tcx.def_kind(parent) {
                DefKind::Impl { of_trait } => {
                    if of_trait {
                        let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                        let _ = assoc;
                        return format!("{}::{}", self.dpath(tr.def_id), tcx.item_name(d));
                    }
                    let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                    return format!("{}::{}", self.head(st), tcx.item_name(d));
                }
                _ => return format!("{}::{}", self.dpath(parent), tcx.item_name(d)),
            }
        }
        let mut s = self.krate(d);
        let dp = tcx.def_path(d);
        for seg in &dp.data {
            use rustc_hir::definitions::DefPathData as P;
            match seg.data {
                P::Impl => s.push_str("::{impl}"),
                _ => { let _ = write!(s, "::{}", seg.as_sym(false)); }
            }
        }
        s
    }

    fn head(&self, t: Ty<'tcx>) -> String {
        match *t.kind() {
            ty::Adt(a, _) => self.dpath(a.did()),
            ty::Slice(_) => "prim::slice".into(),
            ty::Array(..) => "prim::array".into(),
            ty::RawPtr(_, m) => if m.is_mut() { "prim::mut_ptr".into() } else { "prim::const_ptr".into() },
            ty::Ref(..) => "prim::ref".into(),
            ty::Tuple(_) => "prim::tuple".into(),
            ty::Param(p) => format!("param::{}", p.name),
            ty::Dynamic(..) => "prim::dyn".into(),
            _ => format!("prim::{}", with_no_trimmed_paths!(t.to_string())),
        }
    }

    fn tystr(&self, t: Ty<'tcx>) -> String { with_no_trimmed_paths!(t.to_string()) }

    fn konst(&mut self, c: ty::Const<'tcx>) -> String {
        match c.kind() {
            ty::ConstKind::Param(p) => jobj(&[("k", js("param")), ("name", js(p.name.as_str()))]),
            ty::ConstKind::Value(v) => {
                if let Some(s) = v.try_to_leaf() {
                    let bits = s.to_bits_unchecked();
                    return jobj(&[("k", js("int")), ("v", js(&bits.to_string())), ("size", s.size().bytes().to_string())]);
                }
                jobj(&[("k", js("other")), ("s", js(&c.to_string()))])
            }
            _ => jobj(&[("k", js("other")), ("s", js(&c.to_string()))]),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.types.get(&t) { return i; }
        let id = self.type_json.len();
        self.types.insert(t, id);
        self.type_json.push(String::new());
        let s = js(&self.tystr(t));
        let j = match *t.kind() {
            ty::Bool => jobj(&[("k", js("bool"))]),
            ty::Char => jobj(&[("k", js("char"))]),
            ty::Int(i) => jobj(&[("k", js("int")), ("signed", "true".into()), ("bits", i.bit_width().unwrap_or(self.tcx.data_layout.pointer_size().bits()).to_string()), ("ptr", i.bit_width().is_none().to_string())]),
            ty::Uint(i) => jobj(&[("k", js("int")), ("signed", "false".into()), ("bits", i.bit_width().unwrap_or(self.tcx.data_layout.pointer_size().bits()).to_string()), ("ptr", i.bit_width().is_none().to_string())]),
            ty::Float(f) => jobj(&[("k", js("float")), ("bits", f.bit_width().to_string())]),
            ty::Adt(a, args) => {
                self.adt(a);
                let a_ = self.args(args);
                let kr = self.krate(a.did());
                let vf = if (self.is_target_crate(&kr) || kr == "core") && self.ty_depth < 12 {
                    self.ty_depth += 1;
                    let tcx = self.tcx;
                    let vs: Vec<String> = a.variants().iter().map(|v| {
                        let fs: Vec<String> = v.fields.iter().map(|f| {
                            let raw = f.ty(tcx, args).skip_norm_wip();
                            let n = if raw.has_aliases() {
                                let env = self.env(if raw.has_param() { self.cur_root } else { None });
                                if raw.has_param() && self.cur_root.is_none() { raw } else {
                                    tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(raw)).unwrap_or(raw)
                                }
                            } else { raw };
                            self.ty(n).to_string()
                        }).collect();
                        jarr(fs)
                    }).collect();
                    self.ty_depth -= 1;
                    jarr(vs)
                } else { "null".to_string() };
                jobj(&[("k", js("adt")), ("path", js(&self.dpath(a.did()))), ("args", a_), ("vf", vf)])
            }
            ty::Str => jobj(&[("k", js("str"))]),
            ty::Array(e, n) => { let e = self.ty(e); let n = self.konst(n); jobj(&[("k", js("array")), ("elem", e.to_string()), ("len", n)]) }
            ty::Slice(e) => { let e = self.ty(e); jobj(&[("k", js("slice")), ("elem", e.to_string())]) }
            ty::RawPtr(p, m) => { let p = self.ty(p); jobj(&[("k", js("ptr")), ("mut", m.is_mut().to_string()), ("to", p.to_string())]) }
            ty::Ref(_, p, m) => { let p = self.ty(p); jobj(&[("k", js("ref")), ("mut", m.is_mut().to_string()), ("to", p.to_string())]) }
            ty::FnDef(d, args) => { let a = self.args(args.skip_binder()); jobj(&[("k", js("fndef")), ("path", js(&self.dpath(d.into()))), ("args", a)]) }
            ty::FnPtr(..) => jobj(&[("k", js("fnptr"))]),
            ty::Closure(d, args) => {
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let kind = args.as_closure().kind_ty().to_opt_closure_kind().map(|k| format!("{k:?}")).unwrap_or("?".into());
                jobj(&[("k", js("closure")), ("path", js(&self.dpath(d.into()))), ("upvars", jarr(up)), ("ckind", js(&kind))])
            }
            ty::Never => jobj(&[("k", js("never"))]),
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect(); jobj(&[("k", js("tuple")), ("args", jarr(v))]) }
            ty::Param(p) => jobj(&[("k", js("param")), ("name", js(p.name.as_str()))]),
            ty::Alias(_, al) => { let a = self.args(al.args); let _ = al; jobj(&[("k", js("alias")), ("path", s.clone()), ("args", a)]) }
            ty::Dynamic(..) => jobj(&[("k", js("dyn"))]),
            _ => jobj(&[("k", js("other"))]),
        };
        let nd = {
            let env = TypingEnv::fully_monomorphized();
            if t.has_param() || t.has_aliases() || t.has_escaping_bound_vars() { "null".to_string() } else { t.needs_drop(self.tcx, env).to_string() }
        };
        // append the string form
        let mut j = j;
        j.pop();
        let _ = write!(j, ",\"s\":{},\"nd\":{}}}", s, nd);
        self.type_json[id] = j;
        id
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() { v.push(jobj(&[("t", self.ty(t).to_string())])); }
            else if let Some(c) = a.as_const() { let c = self.konst(c); v.push(jobj(&[("c", c)])); }
        }
        jarr(v)
    }

    fn adt(&mut self, a: ty::AdtDef<'tcx>) {
        if !self.adts_done.insert(a.did()) { return; }
        let tcx = self.tcx;
        let args = ty::GenericArgs::identity_for_item(tcx, a.did());
        let mut vs = vec![];
        let discrs: Vec<u128> = if a.is_enum() { a.discriminants(tcx).map(|(_, d)| d.val).collect() } else { vec![0] };
        for (i, v) in a.variants().iter().enumerate() {
            let fs: Vec<String> = v.fields.iter().map(|f| {
                let t = f.ty(tcx, args).skip_norm_wip();
                let t = self.ty(t);
                jobj(&[("name", js(f.name.as_str())), ("ty", t.to_string()), ("pub", f.vis.is_public().to_string())])
            }).collect();
            vs.push(jobj(&[("name", js(v.name.as_str())), ("discr", js(&discrs.get(i).copied().unwrap_or(0).to_string())), ("fields", jarr(fs))]));
        }
        let kind = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
        let gens: Vec<String> = {
            let g = tcx.generics_of(a.did());
            g.own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).map(|p| js(p.name.as_str())).collect()
        };
        let has_drop = a.destructor(tcx).is_some();
        let discr_ty = if a.is_enum() { use rustc_middle::ty::util::IntTypeExt; let t = a.repr().discr_type().to_ty(tcx); self.ty(t) as i64 } else { -1 };
        let line = self.span_line(tcx.def_span(a.did()));
        let j = jobj(&[("kind", js(kind)), ("variants", jarr(vs)), ("generics", jarr(gens)), ("has_drop", has_drop.to_string()),
            ("transparent", a.repr().transparent().to_string()), ("discr_ty", discr_ty.to_string()), ("span", js(&line))]);
        self.adts.insert(self.dpath(a.did()), j);
    }

    fn span_line(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn line(&self, sp: Span) -> usize { self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line }

    fn want_body(&self, d: DefId) -> bool {
        if d.is_local() { return true; }
        let p = self.dpath(d);
        let k = self.krate(d);
        if k == "oct" && !p.starts_with("oct") { return true; }
        if k == "vrt" && p.starts_with("vrt::shadow::") { return true; }
        if !matches!(k.as_str(), "core" | "alloc" | "std" | "oct") { return false; }
        if self.skip.iter().any(|s| s.strip_prefix('!').is_some_and(|s| p == s)) { return true; }
        // `~name`: that method of every integer type
        if let Some((t, n)) = p.strip_prefix("prim::").and_then(|q| q.split_once("::")) {
            let int = matches!(t, "usize" | "isize") || (t.starts_with(['u', 'i']) && t[1..].parse::<u32>().is_ok());
            if int && self.skip.iter().any(|s| s.strip_prefix('~') == Some(n)) { return true; }
        }
        !self.skip.iter().any(|s| p.starts_with(s.as_str()))
    }

    /// the body of the vrt::shadow function that stands for a library function
    fn shadow(&mut self, rd: DefId, args: GenericArgsRef<'tcx>, root: Option<DefId>) -> Option<usize> {
        let tcx = self.tcx;
        if !matches!(self.krate(rd).as_str(), "core" | "alloc" | "std") { return None; }
        let mut key = self.dpath(rd);
        if let Some(im) = tcx.opt_associated_item(rd).map(|_| tcx.parent(rd)) {
            if matches!(tcx.def_kind(im), DefKind::Impl { of_trait: true }) {
                let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                key = format!("{key}@{}", self.head(tr.self_ty()));
                if let Some(t) = tr.args.types().nth(1) { if !matches!(*t.kind(), ty::Param(_)) { key = format!("{key}@{}", self.head(t)); } }
            }
        }
        let (_, name, idx) = SHADOWS.iter().find(|s| s.0 == key)?;
        let krate = tcx.crates(()).iter().copied().find(|&c| tcx.crate_name(c).as_str() == "vrt")?;
        let mut found = None;
        for m in tcx.module_children(krate.as_def_id()) {
            if m.ident.as_str() == "shadow" {
                if let Some(md) = m.res.opt_def_id() {
                    for x in tcx.module_children(md) { if x.ident.as_str() == *name { found = x.res.opt_def_id(); } }
                }
            }
        }
        if std::env::var("SHADOWDBG").is_ok() { eprintln!("shadow {key} {found:?} {args:?}"); }
        let sd = found?;
        let plain: Vec<_> = args.iter().filter(|a| a.as_region().is_none()).collect();
        let picked: Vec<_> = idx.iter().filter_map(|&i| plain.get(i).copied()).collect();
        let want = tcx.generics_of(sd).own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).count();
        if picked.len() != want || tcx.generics_of(sd).own_params.len() != want { return None; }
        let a = tcx.mk_args(&picked); if std::env::var("SHADOWDBG").is_ok() { eprintln!("   dp {} mir {} kind {:?}", self.dpath(sd), tcx.is_mir_available(sd), tcx.def_kind(sd)); }
        self.body_id(Instance::new_raw(sd, a), root, None)
    }

    fn body_id(&mut self, inst: Instance<'tcx>, root: Option<DefId>, promoted: Option<u32>) -> Option<usize> {
        let d = inst.def_id();
        let root = if inst.args.has_param() || inst.args.has_aliases() { root } else { None };
        let key = (inst, root, promoted);
        if let Some(&i) = self.body_ids.get(&key) { return Some(i); }
        if !self.want_body(d) { return None; }
        if !matches!(inst.def, InstanceKind::Item(_)) { return None; }
        let tcx = self.tcx;
        let dk = tcx.def_kind(d);
        match dk {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_constructor(d) || !tcx.is_mir_available(d) { return None; }
            }
            DefKind::Const | DefKind::AssocConst | DefKind::AnonConst | DefKind::Static { .. } => {
                if let Some(t) = tcx.trait_of_assoc(d) { let _ = t; if !tcx.defaultness(d).has_value() { return None; } }
            }
            _ => return None,
        }
        if self.body_ids.len() >= self.max_bodies { return None; }
        let id = self.bodies.len();
        self.bodies.push("null".into());
        self.body_ids.insert(key, id);
        self.queue.push_back((inst, root, promoted, id));
        Some(id)
    }

    fn drain(&mut self) {
        while let Some((inst, root, promoted, id)) = self.queue.pop_front() {
            let j = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.body(inst, root, promoted))).unwrap_or_else(|_| "null".into());
            self.bodies[id] = j;
        }
    }

    fn is_const_like(&self, d: DefId) -> bool {
        matches!(self.tcx.def_kind(d), DefKind::Const | DefKind::AssocConst | DefKind::AnonConst | DefKind::Static { .. })
    }

    fn body(&mut self, inst: Instance<'tcx>, root: Option<DefId>, promoted: Option<u32>) -> String {
        let tcx = self.tcx;
        let d = inst.def_id();
        self.cur_root = root;
        let env = self.env(root);
        let raw: Body<'tcx> = if let Some(p) = promoted {
            tcx.promoted_mir(d)[mir::Promoted::from_u32(p)].clone()
        } else if self.is_const_like(d) {
            tcx.mir_for_ctfe(d).clone()
        } else {
            tcx.optimized_mir(d).clone()
        };
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw)) {
            Ok(b) => b,
            Err(_) => return "null".into(),
        };
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() { names.insert(p.local.as_usize(), v.name.to_string()); } }
        }
        let locals: Vec<String> = body.local_decls.iter_enumerated().map(|(l, dcl)| {
            let t = self.ty(dcl.ty);
            let n = names.get(&l.as_usize()).map(|s| js(s)).unwrap_or("null".into());
            format!("[{},{}]", t, n)
        }).collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                if let Some(x) = self.stmt(&body, s, inst, root, env) { st.push(x); }
            }
            let t = self.term(&body, bb.terminator(), inst, root, env);
            blocks.push(jobj(&[("s", jarr(st)), ("t", t), ("c", bb.is_cleanup.to_string())]));
        }
        let a = self.args(inst.args);
        let sp = self.span_line(tcx.def_span(d));
        let file = { let lo = tcx.sess.source_map().lookup_char_pos(body.span.lo()); lo.file.name.prefer_local_unconditionally().to_string() };
        let is_closure = matches!(tcx.def_kind(d), DefKind::Closure);
        jobj(&[
            ("path", js(&self.dpath(d))), ("crate", js(&self.krate(d))), ("args", a), ("argc", body.arg_count.to_string()),
            ("locals", jarr(locals)), ("blocks", jarr(blocks)), ("span", js(&sp)), ("file", js(&file)), ("closure", is_closure.to_string()),
            ("promoted", promoted.map(|p| p.to_string()).unwrap_or("null".into())),
            ("spread", body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into())),
        ])
    }

    fn place(&mut self, p: Place<'tcx>) -> String {
        if p.projection.is_empty() { return format!("[{}]", p.local.as_usize()); }
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"field\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"cidx\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"down\",{}]", v.as_usize()),
                _ => "[\"other\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), v.join(","))
    }

    fn scalar(&self, s: mir::interpret::Scalar) -> Option<String> {
        match s {
            mir::interpret::Scalar::Int(i) => Some(i.to_bits_unchecked().to_string()),
            _ => None,
        }
    }

    fn alloc_bytes(&self, id: mir::interpret::AllocId, off: u64, len: u64) -> Option<String> {
        if let mir::interpret::GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) {
            let a = a.inner();
            if off + len <= a.size().bytes() && a.provenance().ptrs().is_empty() {
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                return Some(jarr(b.iter().map(|x| x.to_string())));
            }
        }
        None
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        let tid = self.ty(t).to_string();
        let structured = !t.has_param() && !matches!(v, ConstValue::ZeroSized | ConstValue::Slice { .. }) && match *t.kind() {
            ty::Tuple(_) => true,
            ty::Adt(a, _) => a.is_enum() || a.is_struct() && (matches!(self.krate(a.did()).as_str(), "oct") || a.did().is_local() || self.dpath(a.did()).starts_with("core::ops::range")),
            _ => false,
        };
        if structured {
            if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                let var = match (t.kind(), d.variant) { (ty::Adt(a, _), Some(v)) if a.is_enum() => v.as_usize().to_string(), _ => "null".into() };
                let fs: Vec<String> = d.fields.iter().map(|&(v, t)| self.constval(v, t)).collect();
                return jobj(&[("k", js("agg")), ("variant", var), ("fields", jarr(fs.into_iter())), ("ty", tid)]);
            }
        }
        match v {
            ConstValue::ZeroSized => jobj(&[("k", js("zst")), ("ty", tid)]),
            ConstValue::Scalar(s) => {
                if let Some(b) = self.scalar(s) { return jobj(&[("k", js("int")), ("v", js(&b)), ("ty", tid)]); }
                if let mir::interpret::Scalar::Ptr(p, _) = s {
                    let (prov, off) = p.into_raw_parts();
                    let aid = prov.alloc_id();
                    if let mir::interpret::GlobalAlloc::Memory(a) = self.tcx.global_alloc(aid) {
                        let sz = a.inner().size().bytes();
                        if let Some(b) = self.alloc_bytes(aid, off.bytes(), sz - off.bytes()) {
                            return jobj(&[("k", js("refbytes")), ("bytes", b), ("ty", tid)]);
                        }
                    }
                    if let mir::interpret::GlobalAlloc::Function { instance } = self.tcx.global_alloc(aid) {
                        let p = js(&self.dpath(instance.def_id()));
                        return jobj(&[("k", js("fnaddr")), ("path", p), ("ty", tid)]);
                    }
                }
                jobj(&[("k", js("opaque")), ("ty", tid)])
            }
            ConstValue::Slice { alloc_id, meta } => {
                let b = self.alloc_bytes(alloc_id, 0, meta);
                match b { Some(b) => jobj(&[("k", js("bytes")), ("bytes", b), ("ty", tid)]), None => jobj(&[("k", js("opaque")), ("ty", tid)]) }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let env = TypingEnv::fully_monomorphized();
                let sz = if t.has_param() { None } else { self.tcx.layout_of(env.as_query_input(t)).ok().map(|l| l.size.bytes()) };
                if let Some(sz) = sz {
                    if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes(), sz) {
                        return jobj(&[("k", js("mem")), ("bytes", b), ("ty", tid)]);
                    }
                }
                jobj(&[("k", js("opaque")), ("ty", tid)])
            }
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, root: Option<DefId>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match *c {
            Const::Val(v, t) => self.constval(v, t),
            Const::Ty(t, k) => {
                let tid = self.ty(t).to_string();
                let c = self.konst(k);
                jobj(&[("k", js("tyconst")), ("c", c), ("ty", tid)])
            }
            Const::Unevaluated(u, t) => {
                let tid = self.ty(t).to_string();
                if let Some(p) = u.promoted {
                    let inst = Instance::new_raw(u.def, u.args);
                    let b = self.body_id(inst, root, Some(p.as_u32()));
                    return jobj(&[("k", js("promoted")), ("body", b.map(|x| x.to_string()).unwrap_or("null".into())), ("ty", tid)]);
                }
                // try to resolve (trait assoc const)
                let mut def = u.def;
                let mut args = u.args;
                let resolved = match Instance::try_resolve(tcx, env, u.def, u.args) {
                    Ok(Some(i)) => { def = i.def_id(); args = i.args; true }
                    _ => false,
                };
                if resolved && !args.has_param() && !args.has_aliases() {
                    if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                        let inner = self.constval(v, t);
                        if !inner.contains("\"opaque\"") {
                            let mut s = inner; s.pop();
                            let _ = write!(s, ",\"from\":{}}}", js(&self.dpath(u.def)));
                            return s;
                        }
                    }
                }
                if resolved {
                    if let Some((v, _)) = tcx.trivial_const(def) { return self.constval(v, t); }
                }
                let b = if resolved { self.body_id(Instance::new_raw(def, args), root, None) } else { None };
                let ua = self.args(u.args);
                jobj(&[("k", js("uneval")), ("path", js(&self.dpath(u.def))), ("args", ua), ("resolved", resolved.to_string()),
                    ("body", b.map(|x| x.to_string()).unwrap_or("null".into())), ("ty", tid)])
            }
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>, root: Option<DefId>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(*p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(*p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(&c.const_, root, env)),
            Operand::RuntimeChecks(r) => format!("[\"rt\",{}]", js(&format!("{r:?}"))),
        }
    }

    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>, root: Option<DefId>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, root, env)),
            Rvalue::Repeat(o, n) => { let o = self.operand(o, root, env); let n = self.konst(*n); format!("[\"repeat\",{},{}]", o, n) }
            Rvalue::Ref(_, bk, p) => { let m = matches!(bk, BorrowKind::Mut { .. }); format!("[\"ref\",{},{}]", m, self.place(*p)) }
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(*p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"use\",[\"c\",{}],{}]", self.place(*p), m.is_mut()),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&b.local_decls, tcx);
                let from = self.ty(from);
                let to = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", js(&format!("{k:?}")), self.operand(o, root, env), from, to)
            }
            Rvalue::BinaryOp(op, ab) => {
                let ta = ab.0.ty(&b.local_decls, tcx);
                let ta = self.ty(ta);
                let x = self.operand(&ab.0, root, env); let y = self.operand(&ab.1, root, env);
                format!("[\"bin\",{},{},{},{}]", js(&format!("{op:?}")), x, y, ta)
            }
            Rvalue::UnaryOp(op, o) => { let ta = o.ty(&b.local_decls, tcx); let ta = self.ty(ta); format!("[\"un\",{},{},{}]", js(&format!("{op:?}")), self.operand(o, root, env), ta) }
            Rvalue::Discriminant(p) => { let t = p.ty(&b.local_decls, tcx).ty; let t = self.ty(t); format!("[\"discr\",{},{}]", self.place(*p), t) }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.operand(o, root, env)).collect();
                let kk = match **k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = tcx.type_of(d).instantiate(tcx, args).skip_norm_wip();
                        let t = self.ty(t);
                        format!("[\"adt\",{},{},{},{}]", js(&self.dpath(d)), v.as_usize(), t, f.map(|x| x.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(tcx, d.into(), args);
                        format!("[\"closure\",{},{}]", js(&self.dpath(d.into())), self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", kk, jarr(o))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(*p)),
            _ => "[\"other\"]".into(),
        }
    }

    fn stmt(&mut self, b: &Body<'tcx>, s: &Statement<'tcx>, _inst: Instance<'tcx>, root: Option<DefId>, env: TypingEnv<'tcx>) -> Option<String> {
        let ln = self.line(s.source_info.span);
        match &s.kind {
            StatementKind::Assign(x) => {
                let r = self.rvalue(b, &x.1, root, env);
                let t = x.0.ty(&b.local_decls, self.tcx).ty;
                let t = self.ty(t);
                Some(format!("[\"=\",{},{},{},{}]", self.place(x.0), r, t, ln))
            }
            StatementKind::SetDiscriminant { place, variant_index } => Some(format!("[\"setdiscr\",{},{},{}]", self.place(**place), variant_index.as_usize(), ln)),
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(o) => Some(format!("[\"assume\",{},{}]", self.operand(o, root, env), ln)),
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let a = self.operand(&c.src, root, env); let d = self.operand(&c.dst, root, env); let n = self.operand(&c.count, root, env);
                    let t = c.src.ty(&b.local_decls, self.tcx); let t = self.ty(t);
                    Some(format!("[\"cno\",{},{},{},{},{}]", a, d, n, t, ln))
                }
            },
            StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}]", l.as_usize())),
            _ => None,
        }
    }

    fn callee(&mut self, ft: Ty<'tcx>, root: Option<DefId>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match *ft.kind() {
            ty::FnDef(d, args) => {
                let d: DefId = d.into();
                let args = args.skip_binder();
                let args = tcx.erase_and_anonymize_regions(args);
                self.callee_def(d, args, root, env, 0)
            }
            ty::FnPtr(..) => jobj(&[("k", js("fnptr"))]),
            _ => jobj(&[("k", js("unknown")), ("s", js(&self.tystr(ft)))]),
        }
    }

    fn callee_def(&mut self, d: DefId, args: GenericArgsRef<'tcx>, root: Option<DefId>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let mut f: Vec<(&str, String)> = vec![];
        f.push(("path", js(&self.dpath(d))));
        f.push(("crate", js(&self.krate(d))));
        let aj = self.args(args);
        f.push(("args", aj));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            f.push(("trait", js(&self.dpath(tr))));
            f.push(("name", js(tcx.item_name(d).as_str())));
            if let Some(t) = args.types().next() { let t = self.ty(t); f.push(("self", t.to_string())); }
        } else if tcx.opt_associated_item(d).is_some() {
            f.push(("name", js(tcx.item_name(d).as_str())));
            let parent = tcx.parent(d);
            if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                if of_trait {
                    let tr = tcx.impl_trait_ref(parent).instantiate(tcx, args).skip_norm_wip();
                    f.push(("trait", js(&self.dpath(tr.def_id))));
                    let t = self.ty(tr.self_ty()); f.push(("self", t.to_string()));
                }
            }
        } else {
            f.push(("name", js(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str())));
        }
        if tcx.is_constructor(d) {
            let parent_v = tcx.parent(d);
            let (adt_did, vi) = match tcx.def_kind(d) {
                DefKind::Ctor(rustc_hir::def::CtorOf::Variant, _) => {
                    let a = tcx.parent(parent_v);
                    (a, tcx.adt_def(a).variant_index_with_id(parent_v).as_usize())
                }
                _ => (parent_v, 0),
            };
            let out = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip()).output();
            let out = self.ty(out);
            f.push(("k", js("ctor")));
            f.push(("adt", js(&self.dpath(adt_did))));
            f.push(("variant", vi.to_string()));
            f.push(("out", out.to_string()));
            return jobj(&f);
        }
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            f.push(("k", js("unknown")));
            return jobj(&f);
        }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(inst)) => {
                match inst.def {
                    InstanceKind::Item(rd) => {
                        let kind = tcx.def_kind(rd);
                        if matches!(kind, DefKind::Closure) {
                            let b = self.body_id(inst, root, None);
                            f.push(("k", js("closure")));
                            f.push(("body", b.map(|x| x.to_string()).unwrap_or("null".into())));
                        } else {
                            let b = self.body_id(inst, root, None);
                            f.push(("k", js("item")));
                            f.push(("rpath", js(&self.dpath(rd))));
                            f.push(("rcrate", js(&self.krate(rd))));
                            if rd != d { let ra = self.args(inst.args); f.push(("rargs", ra)); }
                            if let Some(b) = self.shadow(rd, inst.args, root) { f.push(("shadow", b.to_string())); }
                            f.push(("body", b.map(|x| x.to_string()).unwrap_or("null".into())));
                            f.push(("unsafe", (!tcx.fn_sig(rd).skip_binder().safety().is_safe()).to_string()));
                            // for iterator-consuming methods overridden in std: also export the trait default
                            if let Some(tr) = tcx.trait_of_assoc(d) {
                                let tp = self.dpath(tr);
                                if rd != d && (tp == "core::iter::traits::iterator::Iterator" || tp == "core::iter::traits::double_ended::DoubleEndedIterator") && tcx.is_mir_available(d) && !rd.is_local() {
                                    let di = Instance::new_raw(d, args);
                                    let b = self.body_id(di, root, None);
                                    f.push(("dbody", b.map(|x| x.to_string()).unwrap_or("null".into())));
                                }
                            }
                        }
                    }
                    InstanceKind::Intrinsic(rd) => { f.push(("k", js("intrinsic"))); f.push(("rpath", js(&self.dpath(rd)))); }
                    InstanceKind::Virtual(..) => f.push(("k", js("virtual"))),
                    InstanceKind::Shim(s) => {
                        match s {
                            ty::ShimKind::FnPtr(_, t) if depth < 4 => {
                                f.push(("k", js("fnptrshim")));
                                if let ty::FnDef(dd, aa) = *t.kind() {
                                    let aa = tcx.erase_and_anonymize_regions(aa.skip_binder());
                                    let c = self.callee_def(dd.into(), aa, root, env, depth + 1);
                                    f.push(("target", c));
                                }
                            }
                            ty::ShimKind::ClosureOnce { closure, .. } => {
                                f.push(("k", js("closureonce")));
                                // resolve the closure's own body
                                if let Some(t) = args.types().next() {
                                    if let ty::Closure(cd, cargs) = *t.kind() {
                                        let inst2 = Instance::new_raw(cd.into(), cargs);
                                        let b = self.body_id(inst2, root, None);
                                        f.push(("body", b.map(|x| x.to_string()).unwrap_or("null".into())));
                                    }
                                }
                                let _ = closure;
                            }
                            ty::ShimKind::DropGlue(..) => f.push(("k", js("dropglue"))),
                            ty::ShimKind::Clone(..) => f.push(("k", js("cloneshim"))),
                            _ => f.push(("k", js("shim"))),
                        }
                    }
                    _ => f.push(("k", js("unknown"))),
                }
            }
            _ => {
                f.push(("k", js("unresolved")));
                // provided trait method bodies are still useful
                if tcx.is_mir_available(d) && tcx.trait_of_assoc(d).is_some() {
                    let b = self.body_id(Instance::new_raw(d, args), root, None);
                    f.push(("dbody", b.map(|x| x.to_string()).unwrap_or("null".into())));
                }
            }
        }
        jobj(&f)
    }

    fn term(&mut self, b: &Body<'tcx>, t: &Terminator<'tcx>, _inst: Instance<'tcx>, root: Option<DefId>, env: TypingEnv<'tcx>) -> String {
        let ln = self.line(t.source_info.span);
        let unw = |u: &UnwindAction| match u { UnwindAction::Cleanup(b) => b.as_usize().to_string(), _ => "null".into() };
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty_ = discr.ty(&b.local_decls, self.tcx);
                let ty_ = self.ty(ty_);
                let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", js(&v.to_string()), b.as_usize())).collect();
                format!("[\"switch\",{},{},{},{},{}]", self.operand(discr, root, env), jarr(v), targets.otherwise().as_usize(), ty_, ln)
            }
            TerminatorKind::UnwindResume => "[\"resume\"]".into(),
            TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
            TerminatorKind::Return => format!("[\"ret\",{}]", ln),
            TerminatorKind::Unreachable => format!("[\"unreach\",{}]", ln),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let ty_ = place.ty(&b.local_decls, self.tcx).ty;
                let tid = self.ty(ty_);
                format!("[\"drop\",{},{},{},{},{}]", self.place(*place), target.as_usize(), unw(unwind), tid, ln)
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let ft = func.ty(&b.local_decls, self.tcx);
                let c = self.callee(ft, root, env);
                let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, root, env)).collect();
                let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(&b.local_decls, self.tcx); self.ty(t).to_string() }).collect();
                let rt = destination.ty(&b.local_decls, self.tcx).ty;
                let rt = self.ty(rt);
                let fop = if matches!(ft.kind(), ty::FnDef(..)) { "null".to_string() } else { self.operand(func, root, env) };
                let sp = self.span_line(t.source_info.span);
                jobj_call(&c, &jarr(a), &jarr(at), &self.place(*destination), rt, target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()), unw(unwind), &fop, ln, &sp)
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let m = format!("{:?}", msg);
                let m: String = m.split('(').next().unwrap_or("").chars().take(60).collect();
                format!("[\"assert\",{},{},{},{},{},{}]", self.operand(cond, root, env), expected, js(&m), target.as_usize(), unw(unwind), ln)
            }
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            _ => "[\"other\"]".into(),
        }
    }

    fn preds(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let ps = tcx.clauses_of(d).instantiate_identity(tcx);
        let v: Vec<String> = ps.clauses.iter().map(|p| { let c = p.skip_norm_wip(); js(&with_no_trimmed_paths!(c.to_string())) }).collect();
        jarr(v)
    }

    fn fn_item(&mut self, ld: LocalDefId, eff: &rustc_middle::middle::privacy::EffectiveVisibilities) -> String {
        let tcx = self.tcx;
        let d = ld.to_def_id();
        self.cur_root = Some(d);
        let inst = Instance::new_raw(d, ty::GenericArgs::identity_for_item(tcx, d));
        let b = self.body_id(inst, Some(d), None);
        let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(d).instantiate_identity().skip_norm_wip());
        let env = self.env(Some(d));
        let ins: Vec<String> = sig.inputs().iter().map(|t| { let t = tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(*t)); self.ty(t).to_string() }).collect();
        let out = { let t = tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(sig.output())); self.ty(t) };
        let mut f: Vec<(&str, String)> = vec![
            ("path", js(&self.dpath(d))), ("name", js(tcx.item_name(d).as_str())), ("body", b.map(|x| x.to_string()).unwrap_or("null".into())),
            ("inputs", jarr(ins)), ("output", out.to_string()),
            ("unsafe", (!sig.safety().is_safe()).to_string()),
            ("const", tcx.is_const_fn(d).to_string()),
            ("span", js(&self.span_line(tcx.def_span(d)))),
            ("pub", eff.is_reachable(ld).to_string()),
            ("vis_pub", tcx.visibility(d).is_public().to_string()),
            ("preds", self.preds(d)),
        ];
        if tcx.opt_associated_item(d).is_some() {
            let parent = tcx.parent(d);
            f.push(("parent", js(&format!("{:?}", parent))));
            if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                f.push(("self_ty", self.ty(st).to_string()));
                if of_trait {
                    let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                    f.push(("trait", js(&self.dpath(tr.def_id))));
                    let ta = self.args(tr.args);
                    f.push(("trait_args", ta));
                }
            }
        }
        jobj(&f)
    }
}

fn jobj_call(c: &str, a: &str, at: &str, dest: &str, rt: usize, target: String, unw: String, fop: &str, ln: usize, sp: &str) -> String {
    format!("[\"call\",{},{},{},{},{},{},{},{},{},{}]", c, a, at, dest, rt, target, unw, fop, ln, js(sp))
}

struct Cb { out: String }

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_some() { return Compilation::Continue; }
        let skip: Vec<String> = std::env::var("OCTFACTS_SKIP").ok().and_then(|p| std::fs::read_to_string(p).ok())
            .map(|s| s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect()).unwrap_or_default();
        let mut cx = Cx { tcx, types: HashMap::new(), type_json: vec![], adts: BTreeMap::new(), adts_done: HashSet::new(), body_ids: HashMap::new(),
            queue: VecDeque::new(), bodies: vec![], skip, max_bodies: 60000, ty_depth: 0, cur_root: None };
        let eff = tcx.effective_visibilities(());
        let mut fns = vec![];
        let mut consts = vec![];
        let mut impls = vec![];
        let mut statics = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    if tcx.is_constructor(d) { continue; }
                    fns.push(cx.fn_item(ld, eff));
                }
                DefKind::Const | DefKind::AssocConst => {
                    let inst = Instance::new_raw(d, ty::GenericArgs::identity_for_item(tcx, d));
                    let has = !(tcx.opt_associated_item(d).is_some() && tcx.trait_of_assoc(d).is_some()) || tcx.defaultness(d).has_value();
                    let b = if has { cx.body_id(inst, Some(d), None) } else { None };
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let t = cx.ty(t);
                    let mut f: Vec<(&str, String)> = vec![("path", js(&cx.dpath(d))), ("name", js(tcx.item_name(d).as_str())), ("ty", t.to_string()),
                        ("body", b.map(|x| x.to_string()).unwrap_or("null".into())), ("span", js(&cx.span_line(tcx.def_span(d))))];
                    if tcx.opt_associated_item(d).is_some() { f.push(("parent", js(&format!("{:?}", tcx.parent(d))))); }
                    consts.push(jobj(&f));
                }
                DefKind::Static { .. } => { statics.push(js(&cx.dpath(d))); }
                DefKind::Impl { of_trait } => {
                    cx.cur_root = Some(d);
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let st_s = cx.tystr(st);
                    let head = cx.head(st);
                    let t = cx.ty(st);
                    let mut f: Vec<(&str, String)> = vec![("id", js(&format!("{:?}", d))), ("self_ty", t.to_string()), ("self_s", js(&st_s)), ("head", js(&head)),
                        ("span", js(&cx.span_line(tcx.def_span(d)))), ("preds", cx.preds(d))];
                    let gens: Vec<String> = tcx.generics_of(d).own_params.iter().map(|p| jobj(&[("name", js(p.name.as_str())), ("kind", js(match p.kind { ty::GenericParamDefKind::Lifetime => "lt", ty::GenericParamDefKind::Type { .. } => "ty", _ => "const" }))])).collect();
                    f.push(("generics", jarr(gens)));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        f.push(("trait", js(&cx.dpath(tr.def_id))));
                        f.push(("trait_s", js(&with_no_trimmed_paths!(tr.to_string()))));
                        let ta = cx.args(tr.args);
                        f.push(("trait_args", ta));
                    }
                    let mut at = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        if matches!(it.kind, ty::AssocKind::Type { .. }) {
                            let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                            let env = cx.env(Some(d));
                            let tn = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)).unwrap_or(t);
                            let tid = cx.ty(tn);
                            at.push(jobj(&[("name", js(it.name().as_str())), ("ty", tid.to_string())]));
                        }
                    }
                    f.push(("assoc", jarr(at)));
                    impls.push(jobj(&f));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => { cx.cur_root = None; cx.adt(tcx.adt_def(d)); }
                _ => {}
            }
        }
        cx.drain();
        let queries = solver_queries(&mut cx);
        let types = format!("[{}]", cx.type_json.join(",\n"));
        let adts: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let out = format!("{{\"crate\":{},\n\"word\":{},\n\"big\":{},\n\"types\":{},\n\"adts\":{{{}}},\n\"fns\":[{}],\n\"consts\":[{}],\n\"impls\":[{}],\n\"statics\":[{}],\n\"queries\":[{}],\n\"bodies\":[{}]}}\n",
            js(&name), tcx.data_layout.pointer_size().bits(), tcx.data_layout.endian == rustc_abi::Endian::Big, types, adts.join(",\n"), fns.join(",\n"), consts.join(",\n"), impls.join(",\n"), statics.join(","), queries.join(",\n"), cx.bodies.join(",\n"));
        let path = format!("{}/{}.json", self.out, name);
        let tmp = format!("{}.tmp", path);
        std::fs::write(&tmp, out).unwrap();
        std::fs::rename(&tmp, &path).unwrap();
        Compilation::Continue
    }
}

fn solver_queries<'tcx>(_cx: &mut Cx<'tcx>) -> Vec<String> { vec![] }

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() < 2 { eprintln!("octfacts: rustc wrapper"); std::process::exit(2); }
    let real = args[1].clone();
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let targets = std::env::var("OCTFACTS_CRATES").unwrap_or_default();
    let is_target = targets.split(',').any(|t| !t.is_empty() && t == crate_name) ;
    if !is_target {
        let st = Command::new(&real).args(&args[2..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    args.remove(0);
    for f in ["-Zmir-opt-level=0", "-Zalways-encode-mir", if crate_name == "oct" && std::env::var("OCTFACTS_DEBUG").is_ok() { "-Cdebug-assertions=on" } else { "-Cdebug-assertions=off" }, "-Coverflow-checks=off", "--cap-lints=allow"] { args.push(f.into()); }
    let out = std::env::var("OCTFACTS_OUT").expect("OCTFACTS_OUT");
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
}
