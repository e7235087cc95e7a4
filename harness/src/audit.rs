//! Structural audit of one B+tree from raw page dumps (C10, C11, C08).
use crate::{core::*, ensure, values::*};
use axmosdb::types::DataType;
use axmosdb::verif::BtreePageDump;
use std::collections::HashSet;

pub struct TreeFacts {
    /// Node pages, root first.
    pub pages: Vec<u64>,
    pub leaves: Vec<u64>,
    pub height: usize,
    /// Rows of the leaves in key order.
    pub rows: Vec<Vec<DataType>>,
    /// First overflow page of leaf cells (page, slot).
    pub leaf_chains: Vec<(u64, u64, usize)>,
    /// First overflow page of interior cells.
    pub inner_chains: Vec<(u64, u64, usize)>,
    pub empty_leaves: usize,
}

struct Walk<'a> {
    read: &'a mut dyn FnMut(u64) -> Result<BtreePageDump, String>,
    nkeys: usize,
    seen: HashSet<u64>,
    f: TreeFacts,
    levels: Vec<Vec<(u64, Option<u64>, Option<u64>)>>,
    last: Option<Vec<K>>,
    order: bool,
}

fn lt(a: &[K], b: &[K]) -> bool {
    a < b
}

/// `order` false: pages and links only (used where keys of the tree are not known to be comparable).
pub fn audit_tree(
    root: u64,
    nkeys: usize,
    order: bool,
    read: &mut dyn FnMut(u64) -> Result<BtreePageDump, String>,
) -> Result<TreeFacts, Violation> {
    let mut w = Walk {
        read,
        nkeys,
        seen: HashSet::new(),
        f: TreeFacts { pages: vec![], leaves: vec![], height: 0, rows: vec![], leaf_chains: vec![], inner_chains: vec![], empty_leaves: 0 },
        levels: vec![],
        last: None,
        order,
    };
    w.node(root, 0, None, None)?;
    for (l, nodes) in w.levels.iter().enumerate() {
        for (i, (id, prev, next)) in nodes.iter().enumerate() {
            let wp = if i > 0 { Some(nodes[i - 1].0) } else { None };
            let wn = nodes.get(i + 1).map(|n| n.0);
            let what = if l + 1 == w.levels.len() { "leaf" } else { "interior page" };
            ensure!(*next == wn, "sibling-links", "{what} {id} (level {l}) names {next:?} as its right neighbour, the key order says {wn:?}");
            ensure!(*prev == wp, "sibling-links", "{what} {id} (level {l}) names {prev:?} as its left neighbour, the key order says {wp:?}");
        }
    }
    w.f.height = w.levels.len();
    Ok(w.f)
}

impl Walk<'_> {
    fn node(&mut self, id: u64, depth: usize, lo: Option<&[K]>, hi: Option<&[K]>) -> Res {
        ensure!(id != 0, "bad-child", "page zero is used as a tree node (depth {depth})");
        ensure!(self.seen.insert(id), "shared-node", "page {id} is reached twice in one tree");
        ensure!(depth < 64, "depth", "tree deeper than 64 levels");
        let p = match (self.read)(id) {
            Ok(p) => p,
            Err(e) => return viol("unreadable-page", format!("page {id} (depth {depth}): {e}")),
        };
        ensure!(p.header_id == id, "header-id", "page {id} carries the number {} in its header", p.header_id);
        if self.levels.len() <= depth {
            self.levels.push(vec![]);
        }
        self.levels[depth].push((id, p.prev, p.next));
        self.f.pages.push(id);
        let mut keys: Vec<Vec<K>> = vec![];
        if self.order {
            for (i, c) in p.cells.iter().enumerate() {
                match &c.row {
                    Ok(r) => keys.push(row_k(&r[..self.nkeys.min(r.len())])),
                    Err(e) => return viol("unreadable-cell", format!("page {id} ({}) slot {i}: {e}", if p.is_leaf { "leaf" } else { "interior" })),
                }
            }
        }
        for (i, c) in p.cells.iter().enumerate() {
            if let Some(o) = c.overflow_page {
                if p.is_leaf {
                    self.f.leaf_chains.push((o, id, i));
                } else {
                    self.f.inner_chains.push((o, id, i));
                }
            }
        }
        if p.is_leaf {
            ensure!(depth + 1 == self.levels.len(), "leaf-depth", "leaf {id} is at depth {depth}, but the tree goes to depth {}", self.levels.len() - 1);
            if let Some(f) = self.f.leaves.first() {
                let fd = self.levels.iter().position(|l| l.iter().any(|n| n.0 == *f)).unwrap();
                ensure!(fd == depth, "leaf-depth", "leaf {id} is at depth {depth}, leaf {f} at depth {fd}");
            }
            self.f.leaves.push(id);
            if p.cells.is_empty() {
                self.f.empty_leaves += 1;
            }
            for (i, k) in keys.iter().enumerate() {
                if let Some(l) = &self.last {
                    ensure!(lt(l, k), "key-order", "leaf {id} slot {i}: key {k:?} follows {l:?}");
                }
                if let Some(lo) = lo {
                    ensure!(!lt(k, lo), "routing", "leaf {id} slot {i}: key {k:?} is below the separator {lo:?} to its left");
                }
                if let Some(hi) = hi {
                    ensure!(lt(k, hi), "routing", "leaf {id} slot {i}: key {k:?} is not below the separator {hi:?} to its right");
                }
                self.last = Some(k.clone());
            }
            for c in p.cells {
                if let Ok(r) = c.row {
                    self.f.rows.push(r);
                }
            }
            return Ok(());
        }
        for w in keys.windows(2) {
            ensure!(lt(&w[0], &w[1]), "separator-order", "interior page {id}: separator {:?} follows {:?}", w[1], w[0]);
        }
        for i in 0..p.cells.len() {
            let c = &p.cells[i];
            let Some(ch) = c.left_child else {
                return viol("bad-child", format!("interior page {id}: cell {i} has no child"));
            };
            let l = if i > 0 && self.order { Some(keys[i - 1].as_slice()) } else { lo };
            let h = if self.order { Some(keys[i].as_slice()) } else { hi };
            self.node(ch, depth + 1, l, h)?;
        }
        let l = if self.order { keys.last().map(|k| k.as_slice()).or(lo) } else { lo };
        self.node(p.right_child.unwrap(), depth + 1, l, hi)
    }
}
