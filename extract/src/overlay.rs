//! Overlay files: specifications keyed by module, trait, impl or function.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnOv {
    pub ret: Option<String>,
    pub ret_ty: Option<String>,
    pub spec: String,
    pub attrs: Vec<String>,
    pub pre: String,
    pub post: String,
    pub loops: BTreeMap<usize, BTreeMap<String, String>>,
    pub closures: BTreeMap<usize, (String, String)>,
    pub anchors: Vec<(String, String, String)>, // before/after, pattern, text
    pub opaque: bool,
    pub forced_opaque: bool,
    pub optional: bool,
    pub drop: bool,
    pub generics: Option<String>,
}
#[derive(Default, Debug)]
pub struct Overlay {
    pub fns: BTreeMap<String, FnOv>,
    pub mods: BTreeMap<String, String>,
    pub traits: BTreeMap<String, String>,
    pub impls: BTreeMap<String, String>,
    pub bounds: BTreeMap<String, String>,
}

impl Overlay {
    pub fn parse(&mut self, file: &str, text: &str) {
        #[derive(Clone)]
        enum Dst {
            None,
            Mod(String),
            Trait(String),
            Impl(String),
            Spec,
            Pre,
            Post,
            Loop(usize, String),
            Closure(usize),
            Anchor(usize),
        }
        let mut cur: Option<String> = None;
        let mut dst = Dst::None;
        for (ln, line) in text.lines().enumerate() {
            let fail = |m: &str| -> ! { panic!("{file}:{}: {m}: {line}", ln + 1) };
            if let Some(d) = line.strip_prefix('#') {
                if d.starts_with("![") || d.starts_with('[') || d.starts_with(' ') || d.starts_with('#') {
                    // attribute text or comment
                    if d.starts_with(' ') || d.starts_with('#') || d.is_empty() {
                        continue;
                    }
                } else if d.is_empty() {
                    continue;
                } else {
                    let (word, rest) = d.split_once(' ').map(|(a, b)| (a, b.trim())).unwrap_or((d, ""));
                    let rest = rest.to_string();
                    let f = |s: &mut Self| -> *mut FnOv {
                        match &cur {
                            Some(k) => s.fns.get_mut(k).unwrap() as *mut FnOv,
                            None => panic!("{file}:{}: no #fn", ln + 1),
                        }
                    };
                    macro_rules! fo {
                        () => {
                            unsafe { &mut *f(self) }
                        };
                    }
                    match word {
                        "mod" => {
                            self.mods.entry(rest.clone()).or_default();
                            dst = Dst::Mod(rest);
                        }
                        "trait" => {
                            self.traits.entry(rest.clone()).or_default();
                            dst = Dst::Trait(rest);
                        }
                        "impl" => {
                            self.impls.entry(rest.clone()).or_default();
                            dst = Dst::Impl(rest);
                        }
                        "bound" => {
                            let (k, b) = rest.split_once("::::").unwrap_or_else(|| fail("bound"));
                            self.bounds.insert(k.trim().to_string(), b.trim().to_string());
                            dst = Dst::None;
                        }
                        "fn" => {
                            self.fns.entry(rest.clone()).or_default();
                            cur = Some(rest);
                            dst = Dst::Spec;
                        }
                        "ret" => fo!().ret = Some(rest),
                        "retty" => fo!().ret_ty = Some(rest),
                        "attr" => fo!().attrs.push(rest),
                        "opaque" => fo!().opaque = true,
                        "optional" => fo!().optional = true,
                        "drop" => fo!().drop = true,
                        "generics" => fo!().generics = Some(rest),
                        "spec" => dst = Dst::Spec,
                        "pre" => dst = Dst::Pre,
                        "post" => dst = Dst::Post,
                        "loop" | "loopstart" | "loopend" | "loopbefore" | "loopafter" | "loophead" => {
                            let k: usize = rest.parse().unwrap_or_else(|_| fail("loop index"));
                            fo!().loops.entry(k).or_default();
                            dst = Dst::Loop(k, word.to_string());
                        }
                        "closure" => {
                            let (k, sig) = rest.split_once(' ').unwrap_or((&rest, ""));
                            let k: usize = k.parse().unwrap_or_else(|_| fail("closure index"));
                            fo!().closures.insert(k, (sig.to_string(), String::new()));
                            dst = Dst::Closure(k);
                        }
                        "before" | "after" => {
                            fo!().anchors.push((word.to_string(), rest, String::new()));
                            let n = fo!().anchors.len() - 1;
                            dst = Dst::Anchor(n);
                        }
                        _ => fail("unknown directive"),
                    }
                    continue;
                }
            }
            let add = |s: &mut String| {
                s.push_str(line);
                s.push('\n');
            };
            let f = cur.as_ref().and_then(|k| self.fns.get_mut(k));
            match &dst {
                Dst::None => {
                    if !line.trim().is_empty() {
                        fail("text outside a section")
                    }
                }
                Dst::Mod(k) => add(self.mods.get_mut(k).unwrap()),
                Dst::Trait(k) => add(self.traits.get_mut(k).unwrap()),
                Dst::Impl(k) => add(self.impls.get_mut(k).unwrap()),
                Dst::Spec => add(&mut f.unwrap().spec),
                Dst::Pre => add(&mut f.unwrap().pre),
                Dst::Post => add(&mut f.unwrap().post),
                Dst::Loop(k, w) => add(f.unwrap().loops.get_mut(k).unwrap().entry(w.clone()).or_default()),
                Dst::Closure(k) => add(&mut f.unwrap().closures.get_mut(k).unwrap().1),
                Dst::Anchor(n) => add(&mut f.unwrap().anchors[*n].2),
            }
        }
    }
}
