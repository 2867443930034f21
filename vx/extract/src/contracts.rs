//! Parser for the contract files.
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct Item {
    pub key: String,
    pub attrs: String,
    pub ret: String,
    pub sig: String,
    pub loops: BTreeMap<usize, String>,
    pub at: Vec<(String, String)>,
    pub closures: BTreeMap<usize, (String, String)>, // header, contract
    pub drop: Option<String>,
    pub free: Option<String>,
    pub rename: Option<String>,
    pub extra: String,        // text added inside a trait / impl
    pub generics: String,     // replacement for the generics (trait bounds), optional
    pub supertraits: Option<String>,
    pub opts: Vec<String>,
    pub props: Vec<String>,
    pub subst: Vec<(String, String)>,
}

#[derive(Default, Debug)]
pub struct FileC {
    pub path: String,
    pub module: String,
    pub prelude: String,
    pub postlude: String,
    pub items: Vec<Item>,
    pub use_drop: Vec<String>,
}

pub fn parse(text: &str, name: &str) -> FileC {
    let mut f = FileC::default();
    let mut cur: Option<Item> = None;
    // destination of text lines
    #[derive(Clone)]
    enum Dst { None, Prelude, Postlude, Attr, Sig, Loop(usize), At(usize), Closure(usize), Extra, Generics }
    let mut dst = Dst::None;
    for (ln, line) in text.lines().enumerate() {
        if let Some(d) = line.strip_prefix('%') {
            let d = d.trim_end();
            let (word, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            match word {
                "file" => f.path = rest.to_string(),
                "module" => f.module = rest.to_string(),
                "usedrop" => f.use_drop.push(rest.to_string()),
                "prelude" => dst = Dst::Prelude,
                "postlude" => {
                    if let Some(i) = cur.take() { f.items.push(i); }
                    dst = Dst::Postlude
                }
                "item" => {
                    if let Some(i) = cur.take() { f.items.push(i); }
                    cur = Some(Item { key: rest.to_string(), ..Default::default() });
                    dst = Dst::None;
                }
                "#" => {}
                _ => {
                    let it = cur.as_mut().unwrap_or_else(|| panic!("{name}:{}: directive outside item", ln + 1));
                    match word {
                        "attr" => { it.attrs.push_str(rest); it.attrs.push('\n'); dst = Dst::Attr }
                        "ret" => it.ret = rest.to_string(),
                        "sig" => dst = Dst::Sig,
                        "loop" => { let k = rest.parse().unwrap(); it.loops.insert(k, String::new()); dst = Dst::Loop(k) }
                        "at" => { it.at.push((rest.to_string(), String::new())); dst = Dst::At(it.at.len() - 1) }
                        "closure" => {
                            let (k, h) = rest.split_once(' ').unwrap_or((rest, ""));
                            let k: usize = k.parse().unwrap();
                            it.closures.insert(k, (h.to_string(), String::new()));
                            dst = Dst::Closure(k)
                        }
                        "drop" => { it.drop = Some(rest.to_string()); dst = Dst::None }
                        "free" => it.free = Some(rest.to_string()),
                        "rename" => it.rename = Some(rest.to_string()),
                        "extra" => dst = Dst::Extra,
                        "generics" => dst = Dst::Generics,
                        "super" => it.supertraits = Some(rest.to_string()),
                        "opt" => it.opts.push(rest.to_string()),
                        "props" => it.props.extend(rest.split_whitespace().map(String::from)),
                        "subst" => { let (x, y) = rest.split_once(" => ").unwrap(); it.subst.push((x.to_string(), y.to_string())) }
                        w => panic!("{name}:{}: unknown directive %{w}", ln + 1),
                    }
                }
            }
            continue;
        }
        let mut put = |s: &mut String| { s.push_str(line); s.push('\n') };
        match dst.clone() {
            Dst::None => assert!(line.trim().is_empty() || line.starts_with("//"), "{name}:{}: stray text: {line}", ln + 1),
            Dst::Prelude => put(&mut f.prelude),
            Dst::Postlude => put(&mut f.postlude),
            d => {
                let it = cur.as_mut().unwrap();
                match d {
                    Dst::Attr => put(&mut it.attrs),
                    Dst::Sig => put(&mut it.sig),
                    Dst::Loop(k) => put(it.loops.get_mut(&k).unwrap()),
                    Dst::At(k) => put(&mut it.at[k].1),
                    Dst::Closure(k) => put(&mut it.closures.get_mut(&k).unwrap().1),
                    Dst::Extra => put(&mut it.extra),
                    Dst::Generics => put(&mut it.generics),
                    _ => unreachable!(),
                }
            }
        }
    }
    if let Some(i) = cur.take() { f.items.push(i); }
    f
}
