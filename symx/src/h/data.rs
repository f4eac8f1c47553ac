//! Data structures: operation sequences over symbolic keys. Comparisons of keys
//! fork on their real order, so one path stands for all keys in that order.
use crate::explore::Harness;
use super::rnd::Lcg;
use crate::num::*;
use rcgal::data_structure::avl_tree::{AVLTree, AVLTreeOption};
use rcgal::data_structure::circular_doubly_linked_list::{CircularDoubleLinkedList, ListNode};
use rcgal::data_structure::priority_queue::PriorityQueue;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::rc::Rc;

thread_local! {
    /// the elements (identities) compared since the last reset
    static SEEN: RefCell<BTreeSet<usize>> = RefCell::new(BTreeSet::new());
}
/// a key with an identity; the order is that of the key alone
#[derive(Clone, Copy, Debug)]
struct Item<T: Num> {
    key: T,
    id: usize,
}
impl<T: Num> Ord for Item<T> {
    fn cmp(&self, o: &Self) -> Ordering {
        SEEN.with(|s| s.borrow_mut().extend([self.id, o.id]));
        if T::branch(lt0(self.key - o.key)) {
            Ordering::Less
        } else if T::branch(gt0(self.key - o.key)) {
            Ordering::Greater
        } else {
            Ordering::Equal
        }
    }
}
impl<T: Num> PartialOrd for Item<T> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<T: Num> PartialEq for Item<T> {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl<T: Num> Eq for Item<T> {}

/// greatest height (in nodes) of a height-balanced tree with n nodes
fn avl_height(n: usize) -> usize {
    let (mut h, mut a, mut b) = (0, 1, 2); // least sizes + 1 of height h, h + 1
    while n + 1 >= b {
        (a, b) = (b, a + b);
        h += 1;
    }
    h
}
/// a symbolic operation code below n
fn pick<T: Num>(name: &str, n: usize) -> usize {
    let k = T::input(name, Group::None);
    T::assume(ge0(k).and(lt(k, T::k(n as i64))));
    (1..n).find(|i| T::branch(lt(k, T::k(*i as i64)))).unwrap_or(n) - 1
}
fn id_list<T: Num>(v: &[Item<T>]) -> Vec<usize> {
    v.iter().map(|x| x.id).collect()
}

// ---- C23 -------------------------------------------------------------------
/// the specification: a sorted list, built with the same comparisons
struct Spec<T: Num> {
    v: Vec<Item<T>>,
    multi: bool,
}
impl<T: Num> Spec<T> {
    fn insert(&mut self, x: Item<T>) {
        let same = self.v.iter().any(|y| *y == x);
        if same && !self.multi {
            return;
        }
        let at = self.v.iter().position(|y| *y > x).unwrap_or(self.v.len());
        self.v.insert(at, x);
    }
    /// removes one of the equal elements: the one the tree removed
    fn delete(&mut self, x: Item<T>, now: &[Item<T>]) {
        let equal: Vec<usize> = (0..self.v.len()).filter(|i| self.v[*i] == x).collect();
        if let Some(i) = equal.iter().find(|i| !now.iter().any(|y| y.id == self.v[**i].id)).or(equal.first()) {
            self.v.remove(*i);
        }
    }
}
struct Run<T: Num> {
    t: AVLTree<Item<T>>,
    s: Spec<T>,
    next: usize,
}
impl<T: Num> Run<T> {
    fn new(multi: bool) -> Self {
        let o = if multi { AVLTreeOption::SameNodeInsertRight } else { AVLTreeOption::DisableSameNode };
        Run { t: AVLTree::new(o), s: Spec { v: vec![], multi }, next: 0 }
    }
    fn item(&mut self) -> Item<T> {
        self.next += 1;
        Item { key: T::input(&format!("k{}", self.next - 1), Group::None), id: self.next - 1 }
    }
    /// run a tree operation; it may look at no more elements than a balanced
    /// tree is high
    fn op(&mut self, f: impl FnOnce(&mut AVLTree<Item<T>>)) {
        let n = self.s.v.len();
        SEEN.with(|s| s.borrow_mut().clear());
        T::lib(|| f(&mut self.t));
        let seen = SEEN.with(|s| s.borrow().len());
        T::check("an operation looks at one balanced path only", lit(seen <= avl_height(n) + 1));
    }
    fn insert(&mut self, x: Item<T>) {
        self.op(|t| t.insert(x));
        self.s.insert(x);
        self.compare();
    }
    fn delete(&mut self, x: Item<T>) {
        self.op(|t| t.delete(x));
        let now = T::lib(|| self.t.mid_order_traversal());
        self.s.delete(x, &now);
        self.compare();
    }
    fn compare(&mut self) {
        let l = T::lib(|| self.t.mid_order_traversal());
        T::check("the tree lists the elements in order", lit(id_list(&l) == id_list(&self.s.v)));
    }
    /// look every element up (inserting an equal one does not change a set)
    fn balanced(&mut self) {
        if !self.s.multi {
            for x in self.s.v.clone() {
                self.op(|t| t.insert(Item { key: x.key, id: 1000 }));
                self.compare();
            }
        }
    }
}
fn avl_ops<T: Num, const N: usize, const MULTI: bool>() {
    let mut r = Run::<T>::new(MULTI);
    for i in 0..N {
        let live = r.s.v.len();
        // insert a new key, delete a live element, delete some key, clear
        let k = pick::<T>(&format!("op{}", i), 3 + live);
        match k {
            0 => {
                let x = r.item();
                r.insert(x)
            }
            1 => {
                let x = r.item();
                r.delete(x)
            }
            2 => {
                T::lib(|| r.t.clear());
                r.s.v.clear();
                r.compare()
            }
            k => {
                let x = r.s.v[k - 3];
                r.delete(x)
            }
        }
    }
    r.balanced();
}
/// N insertions in any order, then one deletion
fn avl_grow<T: Num, const N: usize, const MULTI: bool>() {
    let mut r = Run::<T>::new(MULTI);
    for _ in 0..N {
        let x = r.item();
        r.insert(x);
    }
    r.balanced();
    let k = pick::<T>("del", r.s.v.len());
    let x = r.s.v[k];
    r.delete(x);
    r.balanced();
}
/// N ascending or descending insertions, then deletions at one place
fn avl_runs<T: Num, const N: usize>() {
    let mut r = Run::<T>::new(false);
    let up = pick::<T>("direction", 2) == 0;
    let mut last: Option<Item<T>> = None;
    for _ in 0..N {
        let x = r.item();
        if let Some(l) = last {
            T::assume(if up { lt(l.key, x.key) } else { lt(x.key, l.key) });
        }
        last = Some(x);
        r.insert(x);
    }
    r.balanced();
    let at = pick::<T>("del", N - 4);
    for _ in 0..5 {
        let i = at.min(r.s.v.len() - 1);
        let x = r.s.v[i];
        r.delete(x);
    }
    r.balanced();
}

/// a listed order of n keys: strides, from both ends inwards, from the middle outwards
fn listed_keys(k: usize, n: i64) -> Vec<i64> {
    match k {
        0 => (0..n).map(|i| i * 7 % n).collect(),
        1 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        2 => (0..n).map(|i| if i % 2 == 0 { n / 2 + i / 2 } else { n / 2 - 1 - i / 2 }).collect(),
        _ => (0..n).map(|i| i * 7 % n / 2).collect(),
    }
}
/// N listed keys and one key anywhere among them, then deletions: of that key, at one place
/// repeatedly, or of every other element
fn avl_list<T: Num, const N: usize, const MULTI: bool>() {
    let mut r = Run::<T>::new(MULTI);
    let free = |r: &mut Run<T>| Item { key: T::input("k", Group::None), id: { r.next += 1; r.next - 1 } };
    let when = T::choose("when", 3) * (N / 2);
    for (i, k) in listed_keys(T::choose("order", 3 + MULTI as usize), N as i64).into_iter().enumerate() {
        if i == when {
            let x = free(&mut r);
            r.insert(x);
        }
        r.next += 1;
        r.insert(Item { key: T::k(k), id: r.next - 1 });
    }
    if when == N {
        let x = free(&mut r);
        r.insert(x);
    }
    match T::choose("deletions", 4) {
        0 => {
            let x = free(&mut r);
            r.delete(x)
        }
        k @ (1 | 2) => {
            for _ in 0..N / 2 {
                let n = r.s.v.len();
                let x = r.s.v[if k == 1 { n / 3 } else { n - 1 - n / 5 }];
                r.delete(x);
            }
        }
        _ => {
            let mut i = 0;
            while i < r.s.v.len() {
                let x = r.s.v[i];
                r.delete(x);
                i += 1;
            }
        }
    }
    r.balanced();
}

/// listed histories: insertions in a pseudo-random order, deletions, some insertions again; then
/// one operation with a key anywhere
fn avl_case<T: Num, const LO: usize, const HI: usize, const N: usize>() {
    let case = LO + T::choose("case", HI - LO);
    let mut g = Lcg(case as u64 * 977 + N as u64);
    let multi = case % 3 == 2;
    let mut r = Run::<T>::new(multi);
    let n = N + g.below(5);
    let mut keys: Vec<i64> = (0..n as i64).map(|k| if multi { 2 * k / 3 } else { k }).collect();
    for i in (1..n).rev() {
        keys.swap(i, g.below(i + 1));
    }
    let put = |r: &mut Run<T>, k: i64| {
        r.next += 1;
        r.insert(Item { key: T::k(k), id: r.next - 1 })
    };
    for k in &keys {
        put(&mut r, *k);
    }
    for _ in 0..g.below(n - 2) + 1 {
        let m = r.s.v.len();
        let x = r.s.v[g.below(m)];
        r.delete(x);
    }
    for _ in 0..g.below(3) {
        let k = keys[g.below(n)];
        put(&mut r, k);
    }
    let x = r.item();
    if T::choose("last", 2) == 0 {
        r.insert(x)
    } else {
        r.delete(x)
    }
}
/// 8 keys inserted in listed orders, any two of them deleted, then one deletion anywhere
fn avl_pairs<T: Num, const LO: usize, const HI: usize>() {
    let mut g = Lcg((LO + T::choose("order", HI - LO)) as u64 * 31 + 5);
    let mut keys: Vec<i64> = (0..8).collect();
    for i in (1..8).rev() {
        keys.swap(i, g.below(i + 1));
    }
    let mut r = Run::<T>::new(false);
    for k in keys {
        r.next += 1;
        r.insert(Item { key: T::k(k), id: r.next - 1 });
    }
    for n in [8, 7] {
        let x = r.s.v[T::choose("deleted", n)];
        r.delete(x);
    }
    let x = r.item();
    r.delete(x);
}
/// long histories: N listed keys, cleared and filled again, a third deleted, one key anywhere
fn avl_long<T: Num, const LO: usize, const HI: usize, const N: usize>() {
    let case = LO + T::choose("case", HI - LO);
    let mut g = Lcg::new(case as u64 * 31 + N as u64);
    let multi = case % 2 == 1;
    let mut t = AVLTree::new(if multi { AVLTreeOption::SameNodeInsertRight } else { AVLTreeOption::DisableSameNode });
    // the keys are known: the specification is a sorted list of integers
    let mut want: Vec<(i64, usize)> = vec![];
    let mut id = 0;
    let mut put = |t: &mut AVLTree<Item<T>>, want: &mut Vec<(i64, usize)>, k: i64| {
        T::lib(|| t.insert(Item { key: T::k(k), id }));
        if multi || !want.iter().any(|x| x.0 == k) {
            let at = want.iter().position(|x| x.0 > k).unwrap_or(want.len());
            want.insert(at, (k, id));
        }
        id += 1;
    };
    let keys = if multi { N / 2 } else { 4 * N };
    for round in 0..2 {
        for i in 0..N {
            let k = if case % 4 == 2 { i as i64 } else { g.below(keys) as i64 };
            put(&mut t, &mut want, k);
        }
        if round == 0 {
            T::lib(|| t.clear());
            want.clear();
            T::check("a cleared tree is empty", lit(T::lib(|| t.mid_order_traversal()).is_empty()));
        }
    }
    let ids = |t: &AVLTree<Item<T>>| id_list(&T::lib(|| t.mid_order_traversal()));
    for i in 0..N {
        if i % 3 > 0 && want.len() > N / 3 {
            let k = want[g.below(want.len())].0;
            T::lib(|| t.delete(Item { key: T::k(k), id: 100000 }));
            let now = ids(&t);
            let equal: Vec<usize> = (0..want.len()).filter(|i| want[*i].0 == k).collect();
            let gone = equal.iter().find(|i| !now.contains(&want[**i].1)).or(equal.first());
            want.remove(*gone.unwrap());
        } else {
            put(&mut t, &mut want, g.below(keys) as i64);
        }
        if i % 8 == 0 {
            T::check("the tree lists the elements in order", lit(ids(&t) == want.iter().map(|x| x.1).collect::<Vec<_>>()));
        }
    }
    let n = want.len();
    let x = Item { key: T::input("k", Group::None), id: 200000 };
    let del = T::choose("last", 2) == 1;
    SEEN.with(|s| s.borrow_mut().clear());
    T::lib(|| if del { t.delete(x) } else { t.insert(x) });
    T::check("an operation looks at one balanced path only", lit(SEEN.with(|s| s.borrow().len()) <= avl_height(n) + 1));
    let now = ids(&t);
    let below = want.partition_point(|y| T::branch(lt(T::k(y.0), x.key)));
    let upto = want.partition_point(|y| T::branch(le(T::k(y.0), x.key)));
    let mut w: Vec<usize> = want.iter().map(|x| x.1).collect();
    if del {
        if let Some(i) = (below..upto).find(|i| !now.contains(&w[*i])).or(if below < upto { Some(below) } else { None }) {
            w.remove(i);
        }
    } else if multi || below == upto {
        w.insert(upto, x.id);
    }
    T::check("the tree lists the elements in order", lit(now == w));
}
// ---- C24 -------------------------------------------------------------------
type Node<T> = Rc<RefCell<ListNode<(T, usize)>>>;
fn list_ops<T: Num, const N: usize>() {
    list_from::<T>(0, N)
}
/// 7 elements in a row, then N operations at all positions
fn list_row<T: Num, const N: usize>() {
    list_from::<T>(7, N)
}
fn list_from<T: Num>(row: usize, ops: usize) {
    let mut l = CircularDoubleLinkedList::<(T, usize)>::new();
    let mut want: Vec<(Node<T>, T, usize)> = vec![];
    let value = |i: usize| T::input(&format!("v{}", i), Group::None);
    for i in 0..row + ops {
        let n = want.len();
        // insert after the k-th element (or into the empty list), delete the k-th
        let k = if i < row {
            n.max(1) - 1
        } else {
            pick::<T>(&format!("op{}", i), if n == 0 { 1 } else { 2 * n })
        };
        if n == 0 {
            let x = T::lib(|| l.insert(l.tail(), (value(i), i)));
            want.push((x, value(i), i));
        } else if k < n {
            let x = T::lib(|| l.insert(Some(want[k].0.clone()), (value(i), i)));
            want.insert(k + 1, (x, value(i), i));
        } else {
            T::lib(|| l.delete(Some(want[k - n].0.clone())));
            want.remove(k - n);
        }
        let n = want.len();
        T::check("the length is the number of elements", lit(l.len() == n));
        T::check("the head is absent iff the list is empty", lit(l.head().is_none() == (n == 0) && l.tail().is_none() == (n == 0)));
        if n == 0 {
            continue;
        }
        let is = |a: &Node<T>, b: &Node<T>| lit::<T>(Rc::ptr_eq(a, b));
        let link = |a: &Option<Node<T>>, b: &Node<T>| lit::<T>(a.as_ref().map_or(false, |a| Rc::ptr_eq(a, b)));
        T::check("the head is the first element", is(&l.head().unwrap(), &want[0].0));
        T::check("the last element is the one before the head", is(&l.tail().unwrap(), &want[n - 1].0));
        for i in 0..n {
            let x = want[i].0.borrow();
            T::check("next leads through the elements in order and around", link(&x.next, &want[(i + 1) % n].0));
            T::check("prev is the inverse of next", link(&x.prev, &want[(i + n - 1) % n].0));
            T::check("elements keep their data", eq(x.data.0, want[i].1).and(lit(x.data.1 == want[i].2)));
        }
    }
    // break the reference cycle
    for (x, _, _) in &want {
        x.borrow_mut().next = None;
        x.borrow_mut().prev = None;
    }
}

/// a list grown at listed positions to N elements, as many listed operations, one anywhere
fn list_long<T: Num, const N: usize>() {
    let mut g = Lcg::new(N as u64 + 7 * T::choose("case", 4) as u64);
    let mut l = CircularDoubleLinkedList::<usize>::new();
    let mut want: Vec<(Rc<RefCell<ListNode<usize>>>, usize)> = vec![];
    for i in 0..2 * N + 1 {
        let n = want.len();
        let k = if i == 2 * N {
            // a symbolic position, found by bisection
            let k = T::input("op", Group::None);
            T::assume(ge0(k).and(lt(k, T::k(2 * n as i64))));
            let (mut a, mut b) = (0, 2 * n);
            while b - a > 1 {
                let m = (a + b) / 2;
                if T::branch(lt(k, T::k(m as i64))) {
                    b = m;
                } else {
                    a = m;
                }
            }
            a
        } else if i < N {
            g.below(n.max(1))
        } else {
            g.below(2 * n)
        };
        if n == 0 {
            want.push((T::lib(|| l.insert(None, i)), i));
        } else if k < n {
            let x = T::lib(|| l.insert(Some(want[k].0.clone()), i));
            want.insert(k + 1, (x, i));
        } else {
            T::lib(|| l.delete(Some(want[k - n].0.clone())));
            want.remove(k - n);
        }
        T::check("the length is the number of elements", lit(l.len() == want.len()));
    }
    let n = want.len();
    let mut ok = true;
    for i in 0..n {
        let x = want[i].0.borrow();
        let is = |a: &Option<Rc<RefCell<ListNode<usize>>>>, j: usize| a.as_ref().map_or(false, |a| Rc::ptr_eq(a, &want[j % n].0));
        ok = ok && x.data == want[i].1 && is(&x.next, i + 1) && is(&x.prev, i + n - 1);
    }
    T::check("next leads through the elements in order and around, prev back", lit(ok));
    T::check("the head is the first element, the tail the last", lit(Rc::ptr_eq(&l.head().unwrap(), &want[0].0) && Rc::ptr_eq(&l.tail().unwrap(), &want[n - 1].0)));
    for (x, _) in &want {
        x.borrow_mut().next = None;
        x.borrow_mut().prev = None;
    }
}
// ---- C25 -------------------------------------------------------------------
fn queue_ops<T: Num, const N: usize>() {
    let mut q = PriorityQueue::<Item<T>>::new();
    let mut want: Vec<Item<T>> = vec![];
    let mut n = 0;
    let mut drain = |q: &mut PriorityQueue<Item<T>>, want: &mut Vec<Item<T>>| {
        let x = T::lib(|| q.pop());
        match x {
            None => T::check("pop finds an element while there is one", lit(want.is_empty())),
            Some(x) => {
                T::check("a popped element was pushed and not popped yet", lit(want.iter().filter(|y| y.id == x.id).count() == 1));
                for y in want.iter() {
                    T::check("a popped element is a greatest one", le(y.key, x.key));
                }
                want.retain(|y| y.id != x.id);
            }
        }
    };
    for i in 0..N {
        match pick::<T>(&format!("op{}", i), 3) {
            0 => {
                let x = Item { key: T::input(&format!("k{}", n), Group::None), id: n };
                n += 1;
                T::lib(|| q.push(x));
                want.push(x);
            }
            1 => drain(&mut q, &mut want),
            _ => {
                T::lib(|| q.clear());
                want.clear();
            }
        }
        T::check("empty iff nothing is left", lit(q.is_empty() == want.is_empty()));
    }
    while !want.is_empty() {
        let k = want.len();
        drain(&mut q, &mut want);
        if want.len() == k {
            return;
        }
    }
    T::check("empty at the end", lit(q.is_empty() && T::lib(|| q.pop()).is_none()));
}
/// N pushes in any order, then all pops
fn queue_sort<T: Num, const N: usize>() {
    let mut q = PriorityQueue::<Item<T>>::new();
    let v: Vec<_> = (0..N).map(|i| Item { key: T::input(&format!("k{}", i), Group::None), id: i }).collect();
    T::lib(|| v.iter().for_each(|x| q.push(*x)));
    let mut seen = vec![];
    let mut last: Option<Item<T>> = None;
    for _ in 0..N {
        let x = T::lib(|| q.pop());
        T::check("all elements come back", lit(x.is_some()));
        let Some(x) = x else { return };
        T::check("no element comes back twice", lit(!seen.contains(&x.id)));
        seen.push(x.id);
        T::check("empty iff nothing is left", lit(q.is_empty() == (seen.len() == N)));
        if let Some(l) = last {
            T::check("elements come in descending order", le(x.key, l.key));
        }
        last = Some(x);
    }
    T::check("empty at the end", lit(q.is_empty() && T::lib(|| q.pop()).is_none()));
}

/// 12 listed elements (some equal) and one anywhere, pushed and popped in turn
fn queue_list<T: Num>() {
    let mut q = PriorityQueue::<Item<T>>::new();
    let mut want: Vec<Item<T>> = vec![];
    let (order, when, burst) = (T::choose("order", 4), T::choose("when", 5) * 3, T::choose("burst", 3));
    let mut keys: Vec<T> = listed_keys(order, 12).into_iter().map(T::k).collect();
    keys.insert(when, T::input("k", Group::None));
    let pop = |q: &mut PriorityQueue<Item<T>>, want: &mut Vec<Item<T>>| match T::lib(|| q.pop()) {
        None => T::check("pop finds an element while there is one", lit(want.is_empty())),
        Some(x) => {
            T::check("a popped element was pushed and not popped yet", lit(want.iter().filter(|y| y.id == x.id).count() == 1));
            for y in want.iter() {
                T::check("a popped element is a greatest one", le(y.key, x.key));
            }
            want.retain(|y| y.id != x.id);
        }
    };
    for (id, key) in keys.into_iter().enumerate() {
        let x = Item { key, id };
        T::lib(|| q.push(x));
        want.push(x);
        // two out, after every 5th or 8th element in
        if burst > 0 && id % (2 + 3 * burst) == 4 {
            pop(&mut q, &mut want);
            pop(&mut q, &mut want);
        }
        T::check("empty iff nothing is left", lit(q.is_empty() == want.is_empty()));
    }
    for _ in 0..want.len() {
        pop(&mut q, &mut want);
        T::check("empty iff nothing is left", lit(q.is_empty() == want.is_empty()));
    }
    T::check("everything came back", lit(want.is_empty() && T::lib(|| q.pop()).is_none()));
}

/// N listed elements with one anywhere among them, pushed and popped in a listed order
fn queue_long<T: Num, const N: usize>() {
    let case = T::choose("case", 6);
    let mut g = Lcg::new(N as u64 + 13 * case as u64);
    let mut q = PriorityQueue::<Item<T>>::new();
    // element, and its key if it is a listed one
    let mut want: Vec<(Item<T>, Option<i64>)> = vec![];
    let when = g.below(N);
    let pop = |q: &mut PriorityQueue<Item<T>>, want: &mut Vec<(Item<T>, Option<i64>)>| match T::lib(|| q.pop()) {
        None => T::check("pop finds an element while there is one", lit(want.is_empty())),
        Some(x) => {
            T::check("a popped element was pushed and not popped yet", lit(want.iter().filter(|y| y.0.id == x.id).count() == 1));
            T::check("a popped element is a greatest one", all(want.iter().filter(|y| y.1.is_none()).map(|y| le(y.0.key, x.key)).collect()));
            if let Some(k) = want.iter().filter_map(|y| y.1).max() {
                T::check("a popped element is a greatest one", le(T::k(k), x.key));
            }
            want.retain(|y| y.0.id != x.id);
        }
    };
    for id in 0..N {
        let k = [g.below(4 * N), g.below(N / 2), id, N - id][case % 4];
        let x = Item { key: if id == when { T::input("k", Group::None) } else { T::k(k as i64) }, id };
        T::lib(|| q.push(x));
        want.push((x, if id == when { None } else { Some(k as i64) }));
        if case > 2 && g.below(3) == 0 {
            pop(&mut q, &mut want);
        }
        if case == 5 && id == N / 3 {
            T::lib(|| q.clear());
            want.clear();
        }
        T::check("empty iff nothing is left", lit(q.is_empty() == want.is_empty()));
    }
    for _ in 0..want.len() {
        pop(&mut q, &mut want);
        T::check("empty iff nothing is left", lit(q.is_empty() == want.is_empty()));
    }
    T::check("everything came back", lit(want.is_empty() && T::lib(|| q.pop()).is_none()));
}

pub fn register(v: &mut Vec<Harness>) {
    harness!(v, "C23", "avl_ops4", 0, avl_ops[4, false], "all sequences of 4 operations (insert, delete a present or arbitrary key, clear), all key orders; equal keys rejected", "AVLTree::insert/delete/clear/mid_order_traversal");
    harness!(v, "C23", "avl_multi4", 0, avl_ops[4, true], "all sequences of 4 operations, all key orders; equal keys kept", "AVLTree::insert/delete/clear/mid_order_traversal");
    harness!(v, "C23", "avl_grow5", 0, avl_grow[5, false], "5 insertions in all key orders, one deletion", "AVLTree::insert/delete/mid_order_traversal");
    harness!(v, "C23", "avl_grow5m", 0, avl_grow[5, true], "5 insertions in all key orders, equal keys kept, one deletion", "AVLTree::insert/delete/mid_order_traversal");
    harness!(v, "C23", "avl_grow6m", 1, avl_grow[6, true], "6 insertions in all key orders, equal keys kept, one deletion", "AVLTree::insert/delete/mid_order_traversal");
    harness!(v, "C23", "avl_runs12", 0, avl_runs[12], "12 ascending or descending insertions, 5 deletions at one place", "AVLTree::insert/delete/mid_order_traversal");
    harness!(v, "C23", "avl_ops5", 1, avl_ops[5, false], "all sequences of 5 operations", "AVLTree::insert/delete/clear/mid_order_traversal");
    harness!(v, "C23", "avl_multi5", 1, avl_ops[5, true], "all sequences of 5 operations; equal keys kept", "AVLTree::insert/delete/clear/mid_order_traversal");
    harness!(v, "C23", "avl_grow6", 1, avl_grow[6, false], "6 insertions in all key orders, one deletion", "AVLTree::insert/delete/mid_order_traversal");
    harness!(v, "C23", "avl_list16", 0, avl_list[16, false], "16 keys inserted in 3 listed orders, one key anywhere among them inserted first, in the middle or last, 4 schemes of deletions", "AVLTree::insert/delete/mid_order_traversal");
    harness!(v, "C23", "avl_list16m", 0, avl_list[16, true], "the same in 4 listed orders (one with equal keys), equal keys kept", "AVLTree::insert/delete/mid_order_traversal");
    let f = "AVLTree::insert/delete/mid_order_traversal";
    harness!(v, "C23", "avl_pairs0", 0, avl_pairs[0, 24], "8 keys inserted in 24 listed orders, any two deleted, then a deletion with a key anywhere", f);
    harness!(v, "C23", "avl_pairs1", 1, avl_pairs[24, 300], "8 keys inserted in 276 listed orders, any two deleted, then a deletion with a key anywhere", f);
    harness!(v, "C23", "avl_case0", 0, avl_case[0, 500, 6], "500 listed histories of 6 to 10 keys inserted and some deleted and inserted again, then an insertion or deletion with a key anywhere", f);
    harness!(v, "C23", "avl_case1", 0, avl_case[0, 150, 14], "150 listed histories of 14 to 18 keys, then an insertion or deletion with a key anywhere", f);
    harness!(v, "C23", "avl_case2", 1, avl_case[500, 5000, 6], "4500 listed histories of 6 to 10 keys, then an insertion or deletion with a key anywhere", f);
    harness!(v, "C23", "avl_case3", 1, avl_case[150, 2000, 14], "1850 listed histories of 14 to 18 keys, then an insertion or deletion with a key anywhere", f);
    harness!(v, "C23", "avl_case4", 1, avl_case[0, 100, 40], "100 listed histories of 40 to 44 keys, then an insertion or deletion with a key anywhere", f);
    harness!(v, "C23", "avl_long0", 0, avl_long[0, 8, 60], "8 listed histories of 180 operations on up to 60 keys (one clears), then an insertion or deletion with a key anywhere", "AVLTree::insert/delete/clear/mid_order_traversal");
    harness!(v, "C23", "avl_long1", 1, avl_long[0, 20, 200], "20 listed histories of 600 operations on up to 200 keys (one clears), then an insertion or deletion with a key anywhere", "AVLTree::insert/delete/clear/mid_order_traversal");
    harness!(v, "C24", "list_long0", 0, list_long[40], "4 listed histories of 80 operations on up to 40 elements, then an operation at any position", "CircularDoubleLinkedList::insert/delete/head/tail/len");
    harness!(v, "C24", "list_long1", 1, list_long[300], "4 listed histories of 600 operations on up to 300 elements, then an operation at any position", "CircularDoubleLinkedList::insert/delete/head/tail/len");
    harness!(v, "C25", "queue_long0", 0, queue_long[70], "6 listed histories of pushes and pops of 69 listed elements and one anywhere", "PriorityQueue::push/pop/is_empty/clear");
    harness!(v, "C25", "queue_long1", 1, queue_long[300], "6 listed histories of pushes and pops of 299 listed elements and one anywhere", "PriorityQueue::push/pop/is_empty/clear");
    harness!(v, "C23", "avl_list32", 1, avl_list[32, false], "32 keys inserted in 3 listed orders, one key anywhere among them, 4 schemes of deletions", "AVLTree::insert/delete/mid_order_traversal");
    harness!(v, "C24", "list_row3", 0, list_row[3], "a list of 7 elements, then all sequences of 3 operations at all positions", "CircularDoubleLinkedList::insert/delete/head/tail/len");
    harness!(v, "C25", "queue_list", 0, queue_list, "12 listed elements in 4 orders and one anywhere, 3 interleavings of pushes and pops", "PriorityQueue::push/pop/is_empty");
    harness!(v, "C24", "list_ops5", 0, list_ops[5], "all sequences of 5 operations at all positions", "CircularDoubleLinkedList::insert/delete/head/tail/len");
    harness!(v, "C24", "list_ops6", 1, list_ops[6], "all sequences of 6 operations at all positions", "CircularDoubleLinkedList::insert/delete/head/tail/len");
    harness!(v, "C25", "queue_ops5", 0, queue_ops[5], "all sequences of 5 operations (push, pop, clear), all key orders", "PriorityQueue::push/pop/is_empty/clear");
    harness!(v, "C25", "queue_sort5", 0, queue_sort[5], "5 pushes in all key orders, then all pops", "PriorityQueue::push/pop/is_empty");
    harness!(v, "C25", "queue_ops6", 1, queue_ops[6], "all sequences of 6 operations", "PriorityQueue::push/pop/is_empty/clear");
    harness!(v, "C25", "queue_sort6", 1, queue_sort[6], "6 pushes in all key orders, then all pops", "PriorityQueue::push/pop/is_empty");
}
