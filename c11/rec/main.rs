//! Types that contain themselves. See check.sh and the finding `recursive-types`.
use serdere::*;
use serdere_json::*;

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Tree {
    v: u8,
    children: Vec<Tree>,
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
enum Expr {
    Leaf,
    Node { args: Option<Vec<Expr>> },
}

/// All trees of at most the given depth with at most two children.
fn trees(depth: u8) -> Vec<Tree> {
    let below = if depth == 0 { vec![] } else { trees(depth - 1) };
    let leaf = |v| Tree { v, children: vec![] };
    let mut all = vec![leaf(0)];
    for t in &below {
        all.push(Tree { v: depth, children: vec![copy(t)] });
        for u in &below {
            all.push(Tree { v: depth, children: vec![copy(t), copy(u)] });
        }
    }
    all
}

fn copy(t: &Tree) -> Tree {
    Tree { v: t.v, children: t.children.iter().map(copy).collect() }
}

fn show(t: &Tree) -> String {
    let children: Vec<_> = t.children.iter().map(show).collect();
    format!("{{ \"v\": {}, \"children\": [{}] }}", t.v, children.join(", "))
}

fn main() {
    for t in trees(3) {
        let s = to_str(&t);
        assert_eq!(s, show(&t));
        assert_eq!(from_str::<Tree>(&s).unwrap(), t);
    }
    for e in [Expr::Leaf, Expr::Node { args: None }, Expr::Node { args: Some(vec![Expr::Leaf, Expr::Node { args: Some(vec![]) }]) }] {
        assert_eq!(from_str::<Expr>(&to_str(&e)).unwrap(), e);
    }
}
