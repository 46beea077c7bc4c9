// C13, C14, C15: the tree of names is a map from paths to entries.
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {
//@ subst String => Name
//@ subst FxHashMap<Uuid, DynActorRef> => HashMap<Uuid, DynActorRef>
//@ subst uuid_map: FxHashMap::default() => uuid_map: HashMap::new()
//@ subst FxHashMap<Name, PathTrie<V>> => NameMap<PathTrie<V>>
//@ subst FxHashMap => NameMap
//@ subst I: IntoIterator<Item = Name> => I: IntoNames
//@ subst <K>( => (
//@ subst key: &[K] => key: &[Name]
//@ subst Name: Borrow<K>, => Name: Sized,
//@ subst K: Hash + Eq, => Name: Sized,
//@ subst self.children.remove(fragment.borrow()) => self.children.remove(fragment)
//@ subst segment: &str => segment: &Name
//@ subst "Path segments may not be empty!".to_string() => Name::from_static()
//@ subst hash_map::Iter<'a, Name, PathTrie<V>> => Entries<'a, PathTrie<V>>
//@ subst Values<'_, V> => Values<'_, V>
//@ subst -> Option<Self::Item> => -> Option<&'a V>
//@ subst &'a dyn RoutingPolicy<DynActorRef, NetMessage> => &'a Policy
//@ include map.frag
//@ subst crate::actors::validate_insert_path => validate_insert_path
//@ subst crate::actors::validate_lookup_path => validate_lookup_path
//@ subst crate::actors::parse_path => parse_path
//@ subst path.to_vec() => all_of(path)
//@ subst &( dyn RoutingPolicy<DynActorRef, NetMessage> + Send + Sync ) => &Policy
//@ subst &DEFAULT_BROADCAST_POLICY => default_policy(true)
//@ subst &DEFAULT_SELECT_POLICY => default_policy(false)
//@ subst cfg!(feature = "implicit_routes") => implicit_routes()
//@ inline filter verus/vec.rs :: - :: filter
//@ inline map verus/vec.rs :: - :: map
//@ inline flat_map verus/vec.rs :: - :: flat_map
//@ inline retain verus/vec.rs :: - :: retain_entries
//@ inline fold verus/vec.rs :: - :: fold
/// A text; two texts are equal exactly if their characters are.
#[verifier::external_body]
pub struct Name { x: usize }
impl Name {
    #[verifier::external_body]
    fn clone(&self) -> (r: Name)
        ensures r == *self,
    { unimplemented!() }
}
/// Items in a line, taken from the front.
pub struct Line<T> { v: Vec<T> }
impl<T> View for Line<T> {
    type V = Seq<T>;
    closed spec fn view(&self) -> Seq<T> { self.v@ }
}
impl<T> Line<T> {
    fn new() -> (r: Self)
        ensures r@ == Seq::<T>::empty(),
    { Line { v: Vec::new() } }
    fn push(&mut self, t: T)
        ensures final(self)@ == old(self)@.push(t),
    { self.v.push(t) }
    fn next(&mut self) -> (r: Option<T>)
        ensures match r { Some(t) => old(self)@ == seq![t] + final(self)@, None => old(self)@.len() == 0 && final(self)@ == old(self)@ },
    {
        if self.v.len() == 0 { None } else { let ghost was = self.v@; let t = self.v.remove(0); assert(was =~= seq![t] + self.v@); Some(t) }
    }
    fn collect(self) -> (r: Vec<T>)
        ensures r@ == self@,
    { self.v }
}
/// The texts something iterates over.
pub struct Names { names: Vec<Name> }
trait IntoNames: Sized {
    spec fn names(&self) -> Seq<Name>;
    fn into_iter(self) -> (r: Names)
        ensures r@ == self.names();
}
impl View for Names {
    type V = Seq<Name>;
    uninterp spec fn view(&self) -> Seq<Name>;
}
impl Names {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Name>)
        ensures match r {
            Some(n) => old(self)@ == seq![n] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        },
    { unimplemented!() }
}

pub assume_specification<T> [std::option::Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
// ---- a hash map from names, by its contract
#[verifier::accept_recursive_types(V)]
pub struct NameMap<V> { g: Ghost<Map<Name, V>> }
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct NameEntry<'a, V> { k: std::marker::PhantomData<&'a mut V> }
impl<V> NameMap<V> {
    spec fn m(self) -> Map<Name, V> { self.g@ }
    #[verifier::external_body]
    fn default() -> (r: Self)
        ensures r.m() == Map::<Name, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn entry<'a>(&'a mut self, k: Name) -> (r: NameEntry<'a, V>)
        ensures r.key() == k, r.before() == old(self).m(), r.after() == final(self).m(),
    { unimplemented!() }
    #[verifier::external_body]
    fn get<'a>(&'a self, k: &Name) -> (r: Option<&'a V>)
        ensures match r { Some(v) => self.m().contains_key(*k) && *v == self.m()[*k], None => !self.m().contains_key(*k) },
    { unimplemented!() }
    #[verifier::external_body]
    fn get_mut<'a>(&'a mut self, k: &Name) -> (r: Option<&'a mut V>)
        ensures match r {
            Some(v) => old(self).m().contains_key(*k) && *v == old(self).m()[*k] && final(self).m() == old(self).m().insert(*k, *final(v)),
            None => !old(self).m().contains_key(*k) && final(self).m() == old(self).m(),
        },
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &Name) -> (r: Option<V>)
        ensures final(self).m() == old(self).m().remove(*k),
            match r { Some(v) => old(self).m().contains_key(*k) && v == old(self).m()[*k], None => !old(self).m().contains_key(*k) },
    { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool)
        ensures r == (self.m().dom() =~= Set::<Name>::empty()),
    { unimplemented!() }
    #[verifier::external_body]
    fn entry_at<'a>(&'a mut self, k: &Name) -> (r: &'a mut V)
        requires old(self).m().contains_key(*k),
        ensures *r == old(self).m()[*k], final(self).m() == old(self).m().insert(*k, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    fn iter<'a>(&'a self) -> (r: Entries<'a, V>)
        ensures r.map() == self.m(), r.rest() == self.m().dom(),
    { unimplemented!() }
    /// Its names, each once, in some order.
    #[verifier::external_body]
    fn all_names(&self) -> (r: Names)
        ensures r@.no_duplicates(), r@.to_set() == self.m().dom(),
    { unimplemented!() }
}
/// The entries still to come.
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct Entries<'a, V> { k: std::marker::PhantomData<&'a V> }
impl<'a, V> Entries<'a, V> {
    uninterp spec fn map(self) -> Map<Name, V>;
    uninterp spec fn rest(self) -> Set<Name>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(&'a Name, &'a V)>)
        ensures final(self).map() == old(self).map(),
            match r {
                Some((n, v)) => old(self).rest().contains(*n) && old(self).map().contains_key(*n) && *v == old(self).map()[*n] && final(self).rest() == old(self).rest().remove(*n),
                None => old(self).rest() =~= Set::<Name>::empty() && final(self).rest() == old(self).rest(),
            },
    { unimplemented!() }
}
impl<'a, V> NameEntry<'a, V> {
    uninterp spec fn key(self) -> Name;
    uninterp spec fn before(self) -> Map<Name, V>;
    uninterp spec fn after(self) -> Map<Name, V>;
    #[verifier::external_body]
    fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'a mut V)
        requires f.requires(()),
        ensures
            self.before().contains_key(self.key()) ==> *r == self.before()[self.key()],
            !self.before().contains_key(self.key()) ==> f.ensures((), *r),
            self.after() == self.before().insert(self.key(), *final(r)),
    { unimplemented!() }
}

/*@ struct core/src/dispatch/lookup/path_trie.rs PathTrie */


/// The node at a path, if there is one, and the value there.
spec fn node<V>(t: PathTrie<V>, key: Seq<Name>) -> Option<PathTrie<V>>
    decreases key.len()
{
    if key.len() == 0 { Some(t) } else if t.children.m().contains_key(key[0]) { node(t.children.m()[key[0]], key.skip(1)) } else { None }
}
spec fn content<V>(t: PathTrie<V>, key: Seq<Name>) -> Option<V> {
    match node(t, key) { Some(n) => n.value, None => None }
}
/// Nothing is at this node or below it, and no node is kept for nothing.
spec fn nothing<V>(t: PathTrie<V>) -> bool { t.value is None && t.children.m().dom() =~= Set::<Name>::empty() }
spec fn clean<V>(t: PathTrie<V>) -> bool
    decreases t
{
    forall|k: Name| #[trigger] t.children.m().contains_key(k) ==> clean(t.children.m()[k]) && !nothing(t.children.m()[k])
}
spec fn starts(key: Seq<Name>, p: Seq<Name>) -> bool { key.len() >= p.len() && key.take(p.len() as int) =~= p }

/// Only the entry under this path is another.
spec fn only<V>(a: PathTrie<V>, b: PathTrie<V>, key: Seq<Name>, value: Option<V>) -> bool {
    forall|k: Seq<Name>| #[trigger] content(b, k) == (if k =~= key { value } else { content(a, k) })
}
/// The node is another, but for the child of that name.
spec fn grafted<V>(a: PathTrie<V>, b: PathTrie<V>, e: Name, child: PathTrie<V>) -> bool {
    b.value == a.value && b.children.m() == a.children.m().insert(e, child)
}
proof fn graft<V>(a: PathTrie<V>, b: PathTrie<V>, c: PathTrie<V>, d: PathTrie<V>, key: Seq<Name>, value: Option<V>)
    requires key.len() > 0, grafted(a, b, key[0], d), only(c, d, key.skip(1), value),
        if a.children.m().contains_key(key[0]) { c == a.children.m()[key[0]] } else { nothing(c) },
    ensures only(a, b, key, value), clean(a) && clean(d) && !nothing(d) ==> clean(b) && !nothing(b),
{
    assert forall|k: Seq<Name>| #[trigger] content(b, k) == (if k =~= key { value } else { content(a, k) }) by {
        if k.len() > 0 {
            if k[0] == key[0] {
                assert(content(b, k) == content(d, k.skip(1)));
                if k.skip(1) =~= key.skip(1) {
                    assert(k =~= seq![k[0]] + k.skip(1));
                    assert(key =~= seq![key[0]] + key.skip(1));
                } else { assert(!(k =~= key)); }
            }
        }
    }
    assert(b.children.m().contains_key(key[0]));
}

proof fn grafts<V>(a: PathTrie<V>, c: PathTrie<V>, key: Seq<Name>, rest: Seq<Name>, value: Option<V>)
    requires key.len() > 0, rest == key.skip(1),
        if a.children.m().contains_key(key[0]) { c == a.children.m()[key[0]] } else { nothing(c) },
    ensures forall|b: PathTrie<V>, d: PathTrie<V>| #[trigger] grafted(a, b, key[0], d) ==>
        (only(c, d, rest, value) ==> only(a, b, key, value)) && (clean(a) && clean(d) && !nothing(d) ==> clean(b) && !nothing(b)),
        content(c, rest) == content(a, key),
{
    assert forall|b: PathTrie<V>, d: PathTrie<V>| #[trigger] grafted(a, b, key[0], d) implies
        (only(c, d, rest, value) ==> only(a, b, key, value)) && (clean(a) && clean(d) && !nothing(d) ==> clean(b) && !nothing(b)) by {
        if only(c, d, rest, value) { graft(a, b, c, d, key, value); }
        assert(b.children.m().contains_key(key[0]));
    }
}

/// A child of nothing may be left out.
proof fn pruned<V>(a: PathTrie<V>, m: PathTrie<V>, b: PathTrie<V>, key: Seq<Name>)
    requires key.len() > 0, a.children.m().contains_key(key[0]), m.value == a.value, b.value == a.value,
        m.children.m().contains_key(key[0]), grafted(a, m, key[0], m.children.m()[key[0]]),
        clean(a), clean(m.children.m()[key[0]]),
        only(a.children.m()[key[0]], m.children.m()[key[0]], key.skip(1), None),
        b.children.m() == (if nothing(m.children.m()[key[0]]) { m.children.m().remove(key[0]) } else { m.children.m() }),
    ensures only(a, b, key, None), clean(b),
{
    let d = m.children.m()[key[0]];
    graft(a, m, a.children.m()[key[0]], d, key, None);
    assert forall|k: Seq<Name>| #[trigger] content(b, k) == content(m, k) by {
        if k.len() > 0 && k[0] == key[0] && nothing(d) { assert(content(d, k.skip(1)) is None); assert(content(m, k) == content(d, k.skip(1))); }
    }
}

// ---- all that is in a tree, counted as often as it is there
spec fn bag<V>(t: PathTrie<V>) -> Multiset<V>
    decreases t, 1int, 0nat
{
    own(t).add(bags(t, t.children.m().dom()))
}
spec fn own<V>(t: PathTrie<V>) -> Multiset<V> {
    match t.value { Some(v) => Multiset::singleton(v), None => Multiset::empty() }
}
/// What is in the children of these names.
spec fn bags<V>(t: PathTrie<V>, s: Set<Name>) -> Multiset<V>
    decreases t, 0int, s.len()
{
    if s.len() == 0 { Multiset::empty() } else {
        let k = s.choose();
        (if t.children.m().contains_key(k) { bag(t.children.m()[k]) } else { Multiset::empty() }).add(bags(t, s.remove(k)))
    }
}
spec fn child_bag<V>(t: PathTrie<V>, k: Name) -> Multiset<V> {
    if t.children.m().contains_key(k) { bag(t.children.m()[k]) } else { Multiset::empty() }
}
proof fn pick<V>(t: PathTrie<V>, s: Set<Name>, k: Name)
    requires s.contains(k),
    ensures bags(t, s) == child_bag(t, k).add(bags(t, s.remove(k))),
    decreases s.len(),
{
    let c = s.choose();
    assert(s.len() > 0) by { if s.len() == 0 { assert(s =~= Set::empty()); } }
    if c != k {
        pick(t, s.remove(c), k);
        pick(t, s.remove(k), c);
        assert(s.remove(c).remove(k) =~= s.remove(k).remove(c));
        assert(bags(t, s) =~= child_bag(t, k).add(bags(t, s.remove(k))));
    }
}
proof fn same_bags<V>(t: PathTrie<V>, u: PathTrie<V>, s: Set<Name>)
    requires forall|k: Name| #[trigger] s.contains(k) ==> child_bag(t, k) == child_bag(u, k),
    ensures bags(t, s) == bags(u, s),
    decreases s.len(),
{
    if s.len() > 0 {
        let k = s.choose();
        assert(s.contains(k)) by { if forall|x: Name| !s.contains(x) { assert(s =~= Set::empty()); } }
        assert forall|x: Name| #[trigger] s.remove(k).contains(x) implies child_bag(t, x) == child_bag(u, x) by { assert(s.contains(x)); }
        same_bags(t, u, s.remove(k));
    }
}
/// Names of no children add nothing.
proof fn whole_bags<V>(t: PathTrie<V>, s: Set<Name>)
    requires t.children.m().dom().subset_of(s),
    ensures bags(t, s) == bags(t, t.children.m().dom()),
    decreases s.len(),
{
    if exists|k: Name| #[trigger] s.contains(k) && !t.children.m().contains_key(k) {
        let k = choose|k: Name| #[trigger] s.contains(k) && !t.children.m().contains_key(k);
        pick(t, s, k);
        whole_bags(t, s.remove(k));
        assert(bags(t, s) =~= bags(t, s.remove(k)));
    } else {
        assert(s =~= t.children.m().dom());
    }
}
proof fn part_bags<V>(t: PathTrie<V>, s: Set<Name>, w: Set<Name>)
    requires s.subset_of(w),
    ensures bags(t, s).len() <= bags(t, w).len(),
    decreases w.len(),
{
    if exists|k: Name| #[trigger] w.contains(k) && !s.contains(k) {
        let k = choose|k: Name| #[trigger] w.contains(k) && !s.contains(k);
        pick(t, w, k);
        part_bags(t, s, w.remove(k));
    } else {
        assert(s =~= w);
    }
}

// ---- keeping only some of the entries
/// The condition can be asked about everything.
spec fn decides<V, F: Fn(&V) -> bool>(f: F) -> bool { forall|v: V| #[trigger] f.requires((&v,)) }
/// What was there stays if the condition says yes, and is gone if it says no.
spec fn kept<V, F: Fn(&V) -> bool>(f: F, o: Option<V>, p: Option<V>) -> bool {
    match o { Some(v) => if p is Some { p == o && f.ensures((&v,), true) } else { f.ensures((&v,), false) }, None => p is None }
}
spec fn filtered<V, F: Fn(&V) -> bool>(f: F, a: PathTrie<V>, b: PathTrie<V>) -> bool {
    forall|k: Seq<Name>| kept(f, content(a, k), #[trigger] content(b, k))
}

/// The children of these names are filtered, those of the remaining names as they were.
spec fn partly<V, F: Fn(&V) -> bool>(f: F, was: PathTrie<V>, now: PathTrie<V>, done: Set<Name>, rest: Seq<Name>) -> bool {
    &&& rest.no_duplicates()
    &&& forall|n: Name| #[trigger] rest.contains(n) ==> !done.contains(n) && now.children.m().contains_key(n) && now.children.m()[n] == was.children.m()[n]
    &&& forall|n: Name| #[trigger] was.children.m().contains_key(n) == (done.contains(n) || rest.contains(n))
    &&& forall|n: Name| #[trigger] now.children.m().contains_key(n) ==> was.children.m().contains_key(n)
    &&& forall|n: Name| #[trigger] done.contains(n) ==> child_filtered(f, was, now, n)
}
spec fn child_filtered<V, F: Fn(&V) -> bool>(f: F, was: PathTrie<V>, now: PathTrie<V>, n: Name) -> bool {
    if now.children.m().contains_key(n) {
        clean(now.children.m()[n]) && !nothing(now.children.m()[n]) && filtered(f, was.children.m()[n], now.children.m()[n])
    } else {
        forall|k: Seq<Name>| kept(f, #[trigger] content(was.children.m()[n], k), None)
    }
}
proof fn next_name<V, F: Fn(&V) -> bool>(f: F, was: PathTrie<V>, now: PathTrie<V>, done: Set<Name>, name: Name, rest: Seq<Name>)
    requires partly(f, was, now, done, seq![name] + rest), clean(was),
    ensures !done.contains(name), was.children.m().contains_key(name), now.children.m().contains_key(name),
        now.children.m()[name] == was.children.m()[name], clean(was.children.m()[name]), !rest.contains(name),
        bags(was, done).len() + bag(was.children.m()[name]).len() <= bags(was, was.children.m().dom()).len(),
        decreases_to!(was => was.children.m()[name]),
{
    let names = seq![name] + rest;
    assert(names[0] == name);
    assert(names.contains(name));
    if rest.contains(name) {
        let i = choose|i: int| 0 <= i < rest.len() && rest[i] == name;
        assert(names[i + 1] == names[0]);
    }
    pick(was, done.insert(name), name);
    assert(done.insert(name).remove(name) =~= done);
    part_bags(was, done.insert(name), was.children.m().dom());
}
proof fn nothing_kept<V, F: Fn(&V) -> bool>(f: F, a: PathTrie<V>, d: PathTrie<V>)
    requires filtered(f, a, d),
    ensures nothing(d) ==> bag(d).len() == 0 && (forall|k: Seq<Name>| kept(f, #[trigger] content(a, k), None)),
{
    if nothing(d) {
        assert(d.children.m().dom() =~= Set::<Name>::empty());
        assert forall|k: Seq<Name>| kept(f, #[trigger] content(a, k), None) by { assert(content(d, k) is None); }
    }
}
proof fn next_done<V, F: Fn(&V) -> bool>(f: F, was: PathTrie<V>, before: PathTrie<V>, now: PathTrie<V>, done: Set<Name>, name: Name, rest: Seq<Name>)
    requires partly(f, was, before, done, seq![name] + rest), clean(was), child_filtered(f, was, now, name),
        forall|n: Name| n != name ==> #[trigger] now.children.m().contains_key(n) == before.children.m().contains_key(n),
        forall|n: Name| n != name && before.children.m().contains_key(n) ==> now.children.m()[n] == #[trigger] before.children.m()[n],
    ensures partly(f, was, now, done.insert(name), rest),
        bags(was, done.insert(name)).len() == bags(was, done).len() + bag(was.children.m()[name]).len(),
        bags(now, done.insert(name)).len() == bags(before, done).len() + child_bag(now, name).len(),
{
    next_name(f, was, before, done, name, rest);
    let names = seq![name] + rest;
    assert forall|n: Name| names.contains(n) == (n == name || rest.contains(n)) by {
        if names.contains(n) {
            let i = choose|i: int| 0 <= i < names.len() && names[i] == n;
            if i > 0 { assert(rest[i - 1] == n); }
        }
        if rest.contains(n) {
            let i = choose|i: int| 0 <= i < rest.len() && rest[i] == n;
            assert(names[i + 1] == n);
        }
        assert(names[0] == name);
    }
    assert forall|i: int, j: int| 0 <= i < rest.len() && 0 <= j < rest.len() && i != j implies rest[i] != rest[j] by {
        assert(names[i + 1] != names[j + 1]);
    }
    assert forall|n: Name| #[trigger] rest.contains(n) implies !done.insert(name).contains(n) && now.children.m().contains_key(n) && now.children.m()[n] == was.children.m()[n] by {
        assert(names.contains(n));
    }
    assert forall|n: Name| #[trigger] done.insert(name).contains(n) implies child_filtered(f, was, now, n) by {
        if n != name { assert(child_filtered(f, was, before, n)); }
    }
    pick(was, done.insert(name), name);
    pick(now, done.insert(name), name);
    assert(done.insert(name).remove(name) =~= done);
    assert forall|n: Name| #[trigger] done.contains(n) implies child_bag(before, n) == child_bag(now, n) by {}
    same_bags(before, now, done);
}
proof fn all_done<V, F: Fn(&V) -> bool>(f: F, was: PathTrie<V>, now: PathTrie<V>, done: Set<Name>)
    requires partly(f, was, now, done, Seq::empty()), clean(was), kept(f, was.value, now.value),
    ensures filtered(f, was, now), clean(now), bag(was) == own(was).add(bags(was, done)), bag(now) == own(now).add(bags(now, done)),
{
    assert(done =~= was.children.m().dom());
    whole_bags(now, done);
    assert forall|k: Seq<Name>| kept(f, content(was, k), #[trigger] content(now, k)) by {
        if k.len() > 0 {
            if was.children.m().contains_key(k[0]) {
                assert(done.contains(k[0]));
                assert(content(was, k) == content(was.children.m()[k[0]], k.skip(1)));
                if now.children.m().contains_key(k[0]) { assert(content(now, k) == content(now.children.m()[k[0]], k.skip(1))); }
            } else { assert(content(was, k) is None); assert(content(now, k) is None); }
        }
    }
}

impl<V> PathTrie<V> {
/*@ fn core/src/dispatch/lookup/path_trie.rs :: impl<V> PathTrie<V> :: new
    ensures nothing(r), clean(r), forall|key: Seq<Name>| content(r, key) is None,
    @first assert forall|t: PathTrie<V>, key: Seq<Name>| nothing(t) implies content(t, key) is None by {}
*/
/*@ fn core/src/dispatch/lookup/path_trie.rs :: impl<V> PathTrie<V> :: value
    ensures match r { Some(v) => self.value == Some(*v), None => self.value is None },
*/
/*@ fn core/src/dispatch/lookup/path_trie.rs :: impl<V> PathTrie<V> :: is_leaf
    ensures r == (self.children.m().dom() =~= Set::<Name>::empty()),
*/
/*@ fn core/src/dispatch/lookup/path_trie.rs :: impl<V> PathTrie<V> :: is_empty
    ensures r == nothing(*self),
*/
/*@ fn core/src/dispatch/lookup/path_trie.rs :: impl<V> PathTrie<V> :: insert_owned
    requires clean(*old(self)),
    ensures r == content(*old(self), key.names()), clean(*final(self)),
        forall|k: Seq<Name>| #[trigger] content(*final(self), k) == (if k =~= key.names() { Some(value) } else { content(*old(self), k) }),
    @before `while let` let ghost start = *old(self); let ghost names = key.names();
    @loop 0 invariant start == *old(self), clean(*acc__), content(*acc__, it__@) == content(start, names),
        only(*acc__, *final(acc__), it__@, Some(value)) ==> only(start, *final(self), names, Some(value)),
        clean(*final(acc__)) && !nothing(*final(acc__)) ==> clean(*final(self)),
        ensures it__@.len() == 0,
        decreases it__@.len(),
    @body 0 let ghost here = *acc__; let ghost name = each__; let ghost rest = seq![each__] + it__@;
    @end 0 proof { assert(rest.skip(1) =~= it__@); grafts(here, *acc__, rest, it__@, Some(value));
        assert forall|b: PathTrie<V>| #![trigger clean(b)] b.value == here.value && b.children.m() == here.children.m().insert(name, *final(acc__))
            implies grafted(here, b, rest[0], *final(acc__)) by {}
    }
*/
/*@ fn core/src/dispatch/lookup/path_trie.rs :: impl<V> PathTrie<V> :: get_node
    ensures match r { Some(n) => node(*self, key@) == Some(*n), None => node(*self, key@) is None },
    @loop 0 invariant node(*self, key@) == node(*current_node, key@.skip(it.index@)),
    @first proof { assert(key@.skip(0) =~= key@); assert(key@.skip(key@.len() as int) =~= Seq::<Name>::empty()); }
    @body 0 proof { assert(key@.skip(it.index@).skip(1) =~= key@.skip(it.index@ + 1)); }
    @opt `for fragment in key` => `for fragment in it: key`
*/
/*@ fn core/src/dispatch/lookup/path_trie.rs :: impl<V> PathTrie<V> :: get
    ensures match r { Some(v) => content(*self, key@) == Some(*v), None => content(*self, key@) is None },
*/
/*@ fn core/src/dispatch/lookup/path_trie.rs :: impl<V> PathTrie<V> :: remove
    requires clean(*old(self)),
    ensures r == content(*old(self), key@), clean(*final(self)), only(*old(self), *final(self), key@, None),
*/
/*@ fn core/src/dispatch/lookup/path_trie.rs :: impl<V> PathTrie<V> :: remove_recursive
    requires clean(*old(self)), *old(result) is None,
    ensures *final(result) == content(*old(self), key@), clean(*final(self)), only(*old(self), *final(self), key@, None),
        r == nothing(*final(self)),
    decreases key.len(),
    @first let ghost mut mid = *self;
    @before `if delete_child` proof { mid = *self; }
    @before `self.is_empty()` proof {
        if key@.len() > 0 { assert(key@.subrange(1, key@.len() as int) =~= key@.skip(1)); }
        if key@.len() > 0 && old(self).children.m().contains_key(key@[0]) {
            pruned(*old(self), mid, *self, key@);
        }
    }
*/
/*@ fn core/src/dispatch/lookup/path_trie.rs :: impl<V> PathTrie<V> :: retain
    requires clean(*old(self)), decides(condition), bag(*old(self)).len() <= usize::MAX,
    ensures clean(*final(self)), filtered(condition, *old(self), *final(self)),
        r == bag(*old(self)).len() - bag(*final(self)).len(),
*/
/*@ fn core/src/dispatch/lookup/path_trie.rs :: impl<V> PathTrie<V> :: retain_recursive
    requires clean(*old(self)), decides(*condition), *old(count) + bag(*old(self)).len() <= usize::MAX,
    ensures clean(*final(self)), filtered(*condition, *old(self), *final(self)), r == nothing(*final(self)),
        *final(count) == *old(count) + bag(*old(self)).len() - bag(*final(self)).len(),
    decreases *old(self),
    @first let ghost was = *old(self); let ghost mut done = Set::<Name>::empty(); let ghost mut counted = *count;
    @before `let mut names__` proof { counted = *count; assert(was.children.m() == self.children.m()); }
    @after `let mut names__ = self.children.all_names();` proof { assert(partly(*condition, was, *self, done, names__@)); }
    @loop 0 invariant was == *old(self), decides(*condition), clean(was), counted + bags(was, was.children.m().dom()).len() <= usize::MAX,
        kept(*condition, was.value, self.value), partly(*condition, was, *self, done, names__@),
        *count == counted + bags(was, done).len() - bags(*self, done).len(),
        ensures names__@.len() == 0,
        decreases names__@.len(),
    @body 0 let ghost before = *self;
        proof { next_name(*condition, was, before, done, name__, names__@); }
    @before `if !keep__` proof { nothing_kept(*condition, was.children.m()[name__], self.children.m()[name__]); }
    @end 0 proof { next_done(*condition, was, before, *self, done, name__, names__@); done = done.insert(name__); }
    @before `self.is_empty()` proof { all_done(*condition, was, *self, done); }
*/
/*@ fn core/src/dispatch/lookup/path_trie.rs :: impl<V> PathTrie<V> :: values
    ensures r.inv(), r.remaining() == bag(*self),
*/
}

/*@ struct core/src/dispatch/lookup/path_trie.rs Values */
/*@ struct core/src/dispatch/lookup/path_trie.rs StackItem */
spec fn tree_of<V>(m: Map<Name, PathTrie<V>>) -> PathTrie<V> { PathTrie { value: None, children: NameMap { g: Ghost(m) } } }
spec fn ahead<'a, V>(i: StackItem<'a, V>) -> Multiset<V> { bags(tree_of(i.child_iter.map()), i.child_iter.rest()) }
spec fn all_ahead<'a, V>(s: Seq<StackItem<'a, V>>) -> Multiset<V>
    decreases s.len()
{
    if s.len() == 0 { Multiset::empty() } else { all_ahead(s.drop_last()).add(ahead(s.last())) }
}
proof fn same_tree<V>(t: PathTrie<V>)
    ensures bags(tree_of(t.children.m()), t.children.m().dom()) == bags(t, t.children.m().dom()),
{
    assert(tree_of(t.children.m()).children.m() == t.children.m());
    same_bags(tree_of(t.children.m()), t, t.children.m().dom());
}
proof fn rooted<'a, V>(t: PathTrie<V>, s: Seq<StackItem<'a, V>>)
    requires s.len() == 1, s[0].child_iter.map() == t.children.m(), s[0].child_iter.rest() == t.children.m().dom(),
    ensures bag(t) == own(t).add(all_ahead(s)),
{
    same_tree(t);
    assert(s.drop_last() =~= Seq::empty());
    assert(all_ahead(s.drop_last()) =~= Multiset::empty());
    assert(all_ahead(s) =~= ahead(s[0]));
}
/// One entry on: its node's own value and what is below it come next.
proof fn down<'a, V>(a: Seq<StackItem<'a, V>>, b: Seq<StackItem<'a, V>>, n: Name, c: PathTrie<V>)
    requires a.len() > 0, b.len() == a.len() + 1, b.take(a.len() - 1) =~= a.drop_last(),
        ({ let (i, j) = (a.last().child_iter, b[a.len() - 1].child_iter);
           i.rest().contains(n) && i.map().contains_key(n) && c == i.map()[n] && j.map() == i.map() && j.rest() == i.rest().remove(n) }),
        b.last().child_iter.map() == c.children.m(), b.last().child_iter.rest() == c.children.m().dom(),
    ensures all_ahead(a) == own(c).add(all_ahead(b)),
{
    let m = b.drop_last();
    assert(m.drop_last() =~= a.drop_last());
    same_tree(c);
    let i = a.last().child_iter;
    pick(tree_of(i.map()), i.rest(), n);
    assert(child_bag(tree_of(i.map()), n) == bag(c));
    assert(all_ahead(a) == all_ahead(a.drop_last()).add(ahead(a.last())));
    assert(all_ahead(m) == all_ahead(a.drop_last()).add(ahead(m.last())));
    assert(all_ahead(b) == all_ahead(m).add(ahead(b.last())));
    assert(all_ahead(a) =~= own(c).add(all_ahead(b)));
}
proof fn up<'a, V>(a: Seq<StackItem<'a, V>>, b: Seq<StackItem<'a, V>>)
    requires a.len() > 0, b =~= a.drop_last(), a.last().child_iter.rest() =~= Set::<Name>::empty(),
    ensures all_ahead(a) == all_ahead(b),
{
    assert(all_ahead(a) =~= all_ahead(b));
}
impl<'a, V> Values<'a, V> {
    spec fn inv(self) -> bool { !self.root_visited ==> self.stack@.len() == 0 }
    /// What it will still give.
    spec fn remaining(self) -> Multiset<V> { if self.root_visited { all_ahead(self.stack@) } else { bag(*self.root) } }
#[verifier::exec_allows_no_decreases_clause]
/*@ fn core/src/dispatch/lookup/path_trie.rs :: impl<'a, V> Iterator for Values<'a, V> :: next
    requires old(self).inv(),
    ensures final(self).inv(), match r {
            Some(v) => old(self).remaining() == final(self).remaining().insert(*v),
            None => old(self).remaining().len() == 0 && final(self).remaining().len() == 0,
        },
    @opt `Some((_, child_node))` => `Some((name__, child_node))`
    @before `if let Some(ref root_val)` proof { rooted(*self.root, self.stack@); }
    @loop 0 invariant self.root_visited, self.remaining() == old(self).remaining(),
    @body 0 let ghost before = self.stack@;
    @before `if let Some(ref value)` proof { down(before, self.stack@, *name__, *child_node); }
    @after `self.stack.pop();` proof { up(before, self.stack@); }
*/
}

// ---- names, paths and what is registered under them
/*@ const core/src/actors/paths.rs PATH_SEP */
/*@ const core/src/actors/paths.rs UNIQUE_PATH_SEP */
/*@ const core/src/actors/paths.rs BROADCAST_MARKER */
/*@ const core/src/actors/paths.rs SELECT_MARKER */
/*@ enum core/src/actors/paths.rs PathParseError */
/*@ enum core/src/actors/paths.rs ActorPath */
/*@ struct core/src/actors/paths.rs NamedPath */
/*@ struct core/src/actors/paths.rs UniquePath */
/*@ enum core/src/messaging/mod.rs PathResolvable */
#[verifier::external_body]
pub struct SystemPath { x: usize }
#[verifier::external_body]
pub struct TransportParseError { x: usize }
#[verifier::external_body]
pub struct AddrParseError { x: usize }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Uuid { x: u128 }
#[verifier::external_body]
fn format_message() -> Name { unimplemented!() }

/// A character that no registered name contains.
spec fn special(c: char) -> bool { c == '/' || c == '#' || c == '*' || c == '?' }
spec fn insertable(n: Name) -> bool { n.text().len() > 0 && forall|i: int| 0 <= i < n.text().len() ==> !special(#[trigger] n.text()[i]) }
spec fn marker(n: Name) -> bool { n.text() =~= seq!['*'] || n.text() =~= seq!['?'] }
spec fn can_insert(p: Seq<Name>) -> bool { forall|i: int| 0 <= i < p.len() ==> insertable(#[trigger] p[i]) }
/// A marker may stand alone at the end.
spec fn can_look_up(p: Seq<Name>) -> bool {
    forall|i: int| 0 <= i < p.len() ==> insertable(#[trigger] p[i]) || (i == p.len() - 1 && marker(p[i]))
}
pub struct Chars { x: Vec<char> }
impl View for Chars {
    type V = Seq<char>;
    uninterp spec fn view(&self) -> Seq<char>;
}
impl Chars {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<char>)
        ensures match r {
            Some(c) => old(self)@ == seq![c] + final(self)@,
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        },
    { unimplemented!() }
}
impl Name {
    uninterp spec fn text(self) -> Seq<char>;
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool)
        ensures r == (self.text().len() == 0),
    { unimplemented!() }
    /// In bytes; the characters above are of one byte.
    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures r >= self.text().len(), self.text().len() == 1 && special(self.text()[0]) ==> r == 1,
    { unimplemented!() }
    #[verifier::external_body]
    fn chars(&self) -> (r: Chars)
        ensures r@ == self.text(),
    { unimplemented!() }
    #[verifier::external_body]
    fn from_static() -> Name { unimplemented!() }
}
/// The parts of a text between slashes.
uninterp spec fn split(n: Name) -> Seq<Name>;
#[verifier::external_body]
fn parse_path(n: &Name) -> (r: Vec<Name>)
    ensures r@ == split(*n),
{ unimplemented!() }

/// The items of a slice with their numbers.
#[verifier::external_body]
pub struct Numbered<'a> { x: &'a [Name] }
impl<'a> Numbered<'a> {
    uninterp spec fn all(self) -> Seq<Name>;
    uninterp spec fn at(self) -> int;
    #[verifier::external_body]
    fn of(p: &'a [Name]) -> (r: Self)
        ensures r.all() == p@, r.at() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(usize, &'a Name)>)
        ensures final(self).all() == old(self).all(), match r {
            Some((i, n)) => i == old(self).at() < old(self).all().len() && *n == old(self).all()[i as int] && final(self).at() == i + 1,
            None => old(self).at() >= old(self).all().len() && final(self).at() == old(self).at(),
        },
    { unimplemented!() }
}
/*@ fn core/src/actors/paths.rs :: - :: validate_insert_path_segment
    ensures r is Ok == insertable(*segment),
    @first let ghost text = segment.text(); let ghost mut i: int = 0;
    @loop 0 invariant text == segment.text(), 0 <= i <= text.len(), chars__@ == text.skip(i), forall|j: int| 0 <= j < i ==> !special(#[trigger] text[j]),
        ensures i == text.len(),
        decreases text.len() - i,
    @body 0 proof { assert((seq![c] + chars__@)[0] == c); assert(text.skip(i)[0] == text[i]); assert(chars__@ =~= text.skip(i + 1)) by { assert(chars__@ =~= (seq![c] + chars__@).skip(1)); assert(text.skip(i).skip(1) =~= text.skip(i + 1)); } i = i + 1; }
    @opt `for c in segment.chars() {` => `let mut chars__ = segment.chars(); while let Some(c) = chars__.next() {`
*/
/*@ fn core/src/actors/paths.rs :: - :: validate_lookup_path_segment
    ensures r is Ok == (insertable(*segment) || (is_last && marker(*segment))),
    @first let ghost text = segment.text(); let ghost mut i: int = 0;
    @loop 0 invariant text == segment.text(), 0 <= i <= text.len(), chars__@ == text.skip(i),
        forall|j: int| 0 <= j < i ==> !special(#[trigger] text[j]) || (is_last && len == 1 && text[j] != '/' && text[j] != '#'),
        len >= text.len() > 0, text.len() == 1 && special(text[0]) ==> len == 1,
        ensures i == text.len(),
        decreases text.len() - i,
    @body 0 proof { assert((seq![c] + chars__@)[0] == c); assert(text.skip(i)[0] == text[i]); assert(chars__@ =~= text.skip(i + 1)) by { assert(chars__@ =~= (seq![c] + chars__@).skip(1)); assert(text.skip(i).skip(1) =~= text.skip(i + 1)); } i = i + 1; }
    @opt `for c in segment.chars() {` => `let mut chars__ = segment.chars(); while let Some(c) = chars__.next() {`
*/
/*@ fn core/src/actors/paths.rs :: - :: validate_insert_path
    ensures r is Ok == can_insert(path@),
    @opt `for segment in path.iter() {` => `for segment in it: path.iter() {`
    @loop 0 invariant forall|i: int| 0 <= i < it.index@ ==> insertable(#[trigger] path@[i]),
*/
/*@ fn core/src/actors/paths.rs :: - :: validate_lookup_path
    ensures r is Ok == can_look_up(path@),
    @opt `for (index, segment) in path.iter().enumerate() {` => `let mut items__ = Numbered::of(path); while let Some((index, segment)) = items__.next() {`
    @loop 0 invariant len == path.len(), items__.all() == path@, 0 <= items__.at() <= len,
        forall|i: int| 0 <= i < items__.at() ==> insertable(#[trigger] path@[i]) || (i == len - 1 && marker(path@[i])),
        ensures items__.at() == len,
        decreases len - items__.at(),
*/

// ---- the table of local actors
/// A pair for every entry of a hash map, in some order.
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    fn iter<'a>(&'a self) -> (r: Line<(&'a K, &'a V)>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(*(#[trigger] r@[i]).0) && self@[*r@[i].0] == *r@[i].1,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> *(#[trigger] r@[i]).0 != *(#[trigger] r@[j]).0,
            forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k,
    { unimplemented!() }
}
type Pair<'a> = (&'a Uuid, &'a DynActorRef);
/// The pairs whose actor is such.
spec fn chosen<'a>(s: Seq<Pair<'a>>, such: spec_fn(DynActorRef) -> bool) -> Seq<Pair<'a>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if such(*s[0].1) { seq![s[0]] + chosen(s.skip(1), such) } else { chosen(s.skip(1), such) }
}
proof fn chosen_ones<'a>(s: Seq<Pair<'a>>, such: spec_fn(DynActorRef) -> bool)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0,
    ensures ({
        let c = chosen(s, such);
        &&& c.len() <= s.len()
        &&& forall|i: int, j: int| 0 <= i < j < c.len() ==> *(#[trigger] c[i]).0 != *(#[trigger] c[j]).0
        &&& forall|i: int| 0 <= i < c.len() ==> s.contains(#[trigger] c[i]) && such(*c[i].1)
        &&& forall|i: int| 0 <= i < s.len() && such(*(#[trigger] s[i]).1) ==> c.contains(s[i])
    }),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.skip(1);
        chosen_ones(t, such);
        let (c, d) = (chosen(s, such), chosen(t, such));
        assert forall|x: Pair<'a>| t.contains(x) implies s.contains(x) && *x.0 != *s[0].0 by {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == x;
            assert(s[i + 1] == x);
        }
        assert forall|x: Pair<'a>| d.contains(x) implies c.contains(x) by {
            let i = choose|i: int| 0 <= i < d.len() && d[i] == x;
            if such(*s[0].1) { assert(c[i + 1] == x); }
        }
        if such(*s[0].1) { assert(c[0] == s[0]); assert(forall|i: int| 1 <= i < c.len() ==> c[i] == d[i - 1]); assert(s.contains(s[0])); }
        assert forall|i: int| 0 <= i < s.len() && such(*(#[trigger] s[i]).1) implies c.contains(s[i]) by {
            if i > 0 { assert(t[i - 1] == s[i]); }
        }
    }
}
/// Removing the keys of the chosen pairs one by one.
spec fn removing(was: Map<Uuid, DynActorRef>, now: Map<Uuid, DynActorRef>, keys: Seq<Uuid>, n: int) -> bool {
    &&& now.len() == was.len() - n
    &&& forall|k: Uuid| #[trigger] now.contains_key(k) == (was.contains_key(k) && !among(keys, n, k))
    &&& forall|k: Uuid| #[trigger] now.contains_key(k) ==> now[k] == was[k]
}
spec fn among(keys: Seq<Uuid>, n: int, k: Uuid) -> bool { exists|j: int| 0 <= j < n && #[trigger] keys[j] == k }
proof fn one_removed(was: Map<Uuid, DynActorRef>, before: Map<Uuid, DynActorRef>, now: Map<Uuid, DynActorRef>, keys: Seq<Uuid>, n: int, such: spec_fn(DynActorRef) -> bool)
    requires removing(was, before, keys, n), doomed(was, keys, such), 0 <= n < keys.len(), now == before.remove(keys[n]),
    ensures removing(was, now, keys, n + 1),
{
    let k = keys[n];
    assert(keys.contains(k));
    assert(!among(keys, n, k)) by {
        if among(keys, n, k) { let j = choose|j: int| 0 <= j < n && keys[j] == k; assert(keys[j] != keys[n]); }
    }
    assert(before.contains_key(k));
    assert forall|x: Uuid| #[trigger] among(keys, n + 1, x) == (x == k || among(keys, n, x)) by {
        if among(keys, n + 1, x) { let j = choose|j: int| 0 <= j < n + 1 && keys[j] == x; if j < n { assert(among(keys, n, x)); } }
        if among(keys, n, x) { let j = choose|j: int| 0 <= j < n && keys[j] == x; assert(keys[j] == x); }
        if x == k { assert(keys[n] == x); }
    }
}
proof fn all_removed(was: Map<Uuid, DynActorRef>, now: Map<Uuid, DynActorRef>, keys: Seq<Uuid>, such: spec_fn(DynActorRef) -> bool)
    requires doomed(was, keys, such), removing(was, now, keys, keys.len() as int),
    ensures without(was, now, such),
{
    assert forall|k: Uuid| #[trigger] now.contains_key(k) == (was.contains_key(k) && !such(was[k])) by {
        assert(among(keys, keys.len() as int, k) == keys.contains(k));
    }
}
/// The keys of the pairs chosen among all of them.
spec fn doomed<'a>(was: Map<Uuid, DynActorRef>, keys: Seq<Uuid>, such: spec_fn(DynActorRef) -> bool) -> bool {
    &&& keys.no_duplicates()
    &&& forall|k: Uuid| #[trigger] keys.contains(k) == (was.contains_key(k) && such(was[k]))
}
/*@ enum core/src/dispatch/lookup/mod.rs LookupResult */
/*@ enum core/src/dispatch/lookup/mod.rs InsertResult */
/*@ enum core/src/dispatch/lookup/mod.rs ActorTreeEntry */
/*@ struct core/src/dispatch/lookup/mod.rs ActorStore */
/*@ struct core/src/routing/groups.rs RoutingGroup */
#[verifier::external_body]
pub struct DynActorRef { x: usize }
impl DynActorRef {
    /// The component it refers to exists.
    uninterp spec fn alive(self) -> bool;
    /// Both refer to the same existing component.
    spec fn same(self, o: DynActorRef) -> bool { self.alive() && o.alive() && self.component() == o.component() }
    uninterp spec fn component(self) -> Uuid;
    #[verifier::external_body]
    fn can_upgrade_component(&self) -> (r: bool)
        ensures r == self.alive(),
    { unimplemented!() }
    #[verifier::external_body]
    fn is(&self, o: &DynActorRef) -> (r: bool)
        ensures r == self.same(*o),
    { unimplemented!() }
}
/// A routing policy, and its parts.
#[verifier::external_body]
pub struct Policy { x: usize }
#[verifier::external_body]
pub struct StorePolicy { x: usize }
impl StorePolicy {
    uninterp spec fn whole(self) -> Policy;
    uninterp spec fn broadcasting(self) -> Option<Policy>;
    uninterp spec fn selecting(self) -> Option<Policy>;
    #[verifier::external_body]
    fn deref(&self) -> (r: &Policy)
        ensures *r == self.whole(),
    { unimplemented!() }
    #[verifier::external_body]
    fn broadcast(&self) -> (r: Option<&Policy>)
        ensures match r { Some(p) => self.broadcasting() == Some(*p), None => self.broadcasting() is None },
    { unimplemented!() }
    #[verifier::external_body]
    fn select(&self) -> (r: Option<&Policy>)
        ensures match r { Some(p) => self.selecting() == Some(*p), None => self.selecting() is None },
    { unimplemented!() }
}
uninterp spec fn default_of(broadcast: bool) -> Policy;
uninterp spec fn routes_are_implicit() -> bool;
#[verifier::external_body]
fn implicit_routes() -> (r: bool)
    ensures r == routes_are_implicit(),
{ unimplemented!() }
#[verifier::external_body]
fn default_policy(broadcast: bool) -> (r: &'static Policy)
    ensures *r == default_of(broadcast),
{ unimplemented!() }

#[verifier::external_body]
fn all_of(p: &[Name]) -> (r: Vec<Name>)
    ensures r@ == p@,
{ unimplemented!() }
impl IntoNames for Vec<Name> {
    spec fn names(&self) -> Seq<Name> { self@ }
    #[verifier::external_body]
    fn into_iter(self) -> (r: Names) { unimplemented!() }
}
impl UniquePath {
/*@ fn core/src/actors/paths.rs :: impl UniquePath :: id
    ensures r == self.id,
*/
}
impl NamedPath {
/*@ fn core/src/actors/paths.rs :: impl NamedPath :: path_ref
    ensures r@ == self.path@,
*/
/*@ fn core/src/actors/paths.rs :: impl NamedPath :: into_path
    ensures r@ == self.path@,
*/
}
impl<'a> RoutingGroup<'a> {
/*@ fn core/src/routing/groups.rs :: impl<'a> RoutingGroup<'a> :: new
    ensures r.members@ == members@, *r.policy == *policy,
*/
}
/// The entry as it is reported when it is replaced.
spec fn reported(o: Option<ActorTreeEntry>, r: InsertResult) -> bool {
    match o {
        Some(ActorTreeEntry::Ref(a)) => r == InsertResult::Ref(a),
        Some(ActorTreeEntry::Policy(p)) => r == InsertResult::Policy(p),
        None => r is None,
    }
}
impl InsertResult {
/*@ fn core/src/dispatch/lookup/mod.rs :: impl From<Option<ActorTreeEntry>> for InsertResult :: from as of_entry
    ensures reported(entry, r),
*/
/*@ fn core/src/dispatch/lookup/mod.rs :: impl From<Option<DynActorRef>> for InsertResult :: from as of_ref
    ensures r == (match entry { Some(a) => InsertResult::Ref(a), None => InsertResult::None }),
*/
}
impl<'a> LookupResult<'a> {
/*@ fn core/src/dispatch/lookup/mod.rs :: impl<'a> From<Option<&'a DynActorRef>> for LookupResult<'a> :: from as of_ref
    ensures match entry { Some(a) => r == LookupResult::Ref(a), None => r is None },
*/
}
impl ActorStore {
    spec fn inv(self) -> bool { clean(self.name_map) }
    /// What is registered under a name.
    spec fn named(self, p: Seq<Name>) -> Option<ActorTreeEntry> { content(self.name_map, p) }
/*@ fn core/src/dispatch/lookup/mod.rs :: impl ActorStore :: new
    ensures r.inv(), r.uuid_map@ == Map::<Uuid, DynActorRef>::empty(), forall|p: Seq<Name>| r.named(p) is None, r.deadletter is None,
*/
/*@ fn core/src/dispatch/lookup/mod.rs :: impl ActorLookup for ActorStore :: get_by_uuid
    ensures match r { Some(a) => self.uuid_map@.contains_key(*id) && *a == self.uuid_map@[*id], None => !self.uuid_map@.contains_key(*id) },
*/
/*@ fn core/src/dispatch/lookup/mod.rs :: impl ActorLookup for ActorStore :: remove_by_uuid
    requires old(self).inv(),
    ensures final(self).inv(), r == old(self).uuid_map@.contains_key(*id), final(self).uuid_map@ == old(self).uuid_map@.remove(*id),
        final(self).name_map == old(self).name_map, final(self).deadletter == old(self).deadletter,
*/
/*@ fn core/src/dispatch/lookup/mod.rs :: impl ActorLookup for ActorStore :: remove_by_named_path
    requires old(self).inv(),
    ensures final(self).inv(), r == (old(self).named(path@) is Some), only(old(self).name_map, final(self).name_map, path@, None),
        final(self).uuid_map == old(self).uuid_map, final(self).deadletter == old(self).deadletter,
*/
/*@ fn core/src/dispatch/lookup/mod.rs :: impl ActorLookup for ActorStore :: set_routing_policy
    requires old(self).inv(),
    ensures final(self).inv(), final(self).uuid_map == old(self).uuid_map, final(self).deadletter == old(self).deadletter,
        match r {
            Ok(prev) => can_insert(path@) && reported(old(self).named(path@), prev)
                && only(old(self).name_map, final(self).name_map, path@, Some(ActorTreeEntry::Policy(policy))),
            Err(_) => !can_insert(path@) && final(self).name_map == old(self).name_map,
        },
    @opt `Ok(prev.into())` => `Ok(InsertResult::of_entry(prev))`
*/
/*@ fn core/src/dispatch/lookup/mod.rs :: impl ActorLookup for ActorStore :: insert
    requires old(self).inv(),
    ensures final(self).inv(), inserted(*old(self), *final(self), path, actor, r),
    @opt `Ok(self.uuid_map.insert(key, actor).into())` => `Ok(InsertResult::of_ref(self.uuid_map.insert(key, actor)))`
    @opt `Ok(self.uuid_map.insert(uuid, actor).into())` => `Ok(InsertResult::of_ref(self.uuid_map.insert(uuid, actor)))`
    @opt `Ok(self.deadletter.replace(actor).into())` => `Ok(InsertResult::of_ref(self.deadletter.replace(actor)))`
    @opt `Ok(prev.into())` => `Ok(InsertResult::of_entry(prev))`
*/
/*@ fn core/src/dispatch/lookup/mod.rs :: impl ActorLookup for ActorStore :: contains
    requires self.inv(), place(*path) is Name ==> can_look_up(place(*path)->Name_0),
    ensures r == match place(*path) {
        Place::Id(id) => self.uuid_map@.contains_key(id),
        Place::Name(p) => self.named(p) is Some,
        Place::System => self.deadletter is Some,
    },
*/
#[verifier::exec_allows_no_decreases_clause]
/*@ fn core/src/dispatch/lookup/mod.rs :: impl ActorLookup for ActorStore :: get_by_named_path
    requires self.inv(), can_look_up(path@),
    ensures looked_up(*self, path@, r),
    @opt `self.deadletter.as_ref().into()` => `LookupResult::of_ref(self.deadletter.as_ref())`
    @first proof { if path@.len() > 0 { assert(insertable(path@.last()) || marker(path@.last())); } }
    @before `match self.name_map.get_node` proof { assert(lookup_path@ =~= if marker_opt is Some { path@.drop_last() } else { path@ }); }
    @loop 0 invariant it__.inv(), forall|a: DynActorRef| #[trigger] count_of(found__@, a) + it__.remaining().count(ActorTreeEntry::Ref(a)) == bag(*node).count(ActorTreeEntry::Ref(a)),
        ensures it__.remaining().len() == 0,
    @body 0 let ghost so_far = found__@;
    @end 0 proof { counted(so_far, found__@, *each__); }
    @loop 1 invariant it__.inv(), forall|a: DynActorRef| #[trigger] count_of(found__@, a) + it__.remaining().count(ActorTreeEntry::Ref(a)) == bag(*node).count(ActorTreeEntry::Ref(a)),
        ensures it__.remaining().len() == 0,
    @body 1 let ghost so_far = found__@;
    @end 1 proof { counted(so_far, found__@, *each__); }
*/
/*@ fn core/src/dispatch/lookup/mod.rs :: trait ActorLookup: Clone :: get_by_actor_path
    requires self.inv(), *path is Named ==> can_look_up(path->Named_0.path@),
    ensures match *path {
        ActorPath::Unique(up) => if self.uuid_map@.contains_key(up.id) { r == LookupResult::Ref(&self.uuid_map@[up.id]) } else { r is None },
        ActorPath::Named(np) => looked_up(*self, np.path@, r),
    },
*/
/*@ fn core/src/dispatch/lookup/mod.rs :: impl ActorStore :: remove_from_uuid_map
    ensures final(self).name_map == old(self).name_map, final(self).deadletter == old(self).deadletter,
        without(old(self).uuid_map@, final(self).uuid_map@, |a: DynActorRef| a.same(*actor)),
        r == old(self).uuid_map@.len() - final(self).uuid_map@.len(),
    @opt `rec.1 == actor` => `rec.1.is(actor)`
    @first let ghost such = |a: DynActorRef| a.same(*actor); let ghost was = self.uuid_map@; let ghost mut all: Seq<Pair> = Seq::empty(); let ghost mut kept: Seq<Pair> = Seq::empty();
    @before `let mut kept__` proof { all = it__@; }
    @loop 0 invariant kept__@ + chosen(it__@, such) =~= chosen(all, such), such == (|a: DynActorRef| a.same(*actor)),
        ensures it__@.len() == 0,
        decreases it__@.len(),
    @body 0 let ghost rest = seq![each__] + it__@; proof { assert(rest.skip(1) =~= it__@); assert(rest[0] == each__); }
    @before `let mut made__` proof { kept = it__@; }
    @loop 1 invariant made__@.len() + it__@.len() == kept.len(), it__@ =~= kept.skip(made__@.len() as int),
            forall|i: int| 0 <= i < made__@.len() ==> #[trigger] made__@[i] == *kept[i].0,
        ensures it__@.len() == 0,
        decreases it__@.len(),
    @body 1 proof { assert((seq![each__] + it__@)[0] == each__); assert(kept.skip(made__@.len() as int)[0] == kept[made__@.len() as int]); assert(it__@ =~= (seq![each__] + it__@).skip(1)); }
    @opt `for m in matches` => `for m in it: matches`
    @before `for m in` let ghost keys = matches@; proof { keys_of(was, all, kept, keys, such); if keys.len() == 0 { all_removed(was, was, keys, such); } }
    @loop 2 invariant it.seq() == keys, removing(was, self.uuid_map@, keys, it.index@), doomed(was, keys, such), it.index@ == keys.len() ==> without(was, self.uuid_map@, such), such == (|a: DynActorRef| a.same(*actor)),
    @body 2 let ghost before = self.uuid_map@; let ghost n = it.index@;
    @end 2 proof { one_removed(was, before, self.uuid_map@, keys, n, such); if n + 1 == keys.len() { all_removed(was, self.uuid_map@, keys, such); } }
*/
/*@ fn core/src/dispatch/lookup/mod.rs :: impl ActorStore :: remove_from_name_map
    requires old(self).inv(), bag(old(self).name_map).len() <= usize::MAX,
    ensures final(self).inv(), final(self).uuid_map == old(self).uuid_map, final(self).deadletter == old(self).deadletter,
        unnamed(old(self).name_map, final(self).name_map, |a: DynActorRef| a.same(*actor)),
        r == bag(old(self).name_map).len() - bag(final(self).name_map).len(),
    @opt `self.name_map.retain(|entry| {` => `self.name_map.retain(|entry: &ActorTreeEntry| -> (keep: bool) ensures keep == !(*entry matches ActorTreeEntry::Ref(x) && actor.same(x)) {`
    @opt `actor != other_actor` => `!actor.is(other_actor)`
*/
/*@ fn core/src/dispatch/lookup/mod.rs :: impl ActorStore :: remove_deallocated_entries
    requires old(self).inv(), bag(old(self).name_map).len() + old(self).uuid_map@.len() <= usize::MAX,
    ensures final(self).inv(), final(self).deadletter == old(self).deadletter,
        without(old(self).uuid_map@, final(self).uuid_map@, |a: DynActorRef| !a.alive()),
        unnamed(old(self).name_map, final(self).name_map, |a: DynActorRef| !a.alive()),
        r == bag(old(self).name_map).len() - bag(final(self).name_map).len() + old(self).uuid_map@.len() - final(self).uuid_map@.len(),
    @opt `self.name_map.retain(|entry| {` => `self.name_map.retain(|entry: &ActorTreeEntry| -> (keep: bool) ensures keep == !(*entry matches ActorTreeEntry::Ref(x) && !x.alive()) {`
    @first let ghost such = |a: DynActorRef| !a.alive(); let ghost was = self.uuid_map@; let ghost mut all: Seq<Pair> = Seq::empty(); let ghost mut kept: Seq<Pair> = Seq::empty();
    @before `let mut kept__` proof { all = it__@; }
    @loop 0 invariant kept__@ + chosen(it__@, such) =~= chosen(all, such), such == (|a: DynActorRef| !a.alive()),
        ensures it__@.len() == 0,
        decreases it__@.len(),
    @body 0 let ghost rest = seq![each__] + it__@; proof { assert(rest.skip(1) =~= it__@); assert(rest[0] == each__); }
    @before `let mut made__` proof { kept = it__@; }
    @loop 1 invariant made__@.len() + it__@.len() == kept.len(), it__@ =~= kept.skip(made__@.len() as int),
            forall|i: int| 0 <= i < made__@.len() ==> #[trigger] made__@[i] == *kept[i].0,
        ensures it__@.len() == 0,
        decreases it__@.len(),
    @body 1 proof { assert((seq![each__] + it__@)[0] == each__); assert(kept.skip(made__@.len() as int)[0] == kept[made__@.len() as int]); assert(it__@ =~= (seq![each__] + it__@).skip(1)); }
    @opt `for m in matches` => `for m in it: matches`
    @before `existed += matches` let ghost keys = matches@; proof { keys_of(was, all, kept, keys, such); if keys.len() == 0 { all_removed(was, was, keys, such); } }
    @loop 2 invariant it.seq() == keys, removing(was, self.uuid_map@, keys, it.index@), doomed(was, keys, such), it.index@ == keys.len() ==> without(was, self.uuid_map@, such), such == (|a: DynActorRef| !a.alive()),
    @body 2 let ghost before = self.uuid_map@; let ghost n = it.index@;
    @end 2 proof { one_removed(was, before, self.uuid_map@, keys, n, such); if n + 1 == keys.len() { all_removed(was, self.uuid_map@, keys, such); } }
*/
/*@ fn core/src/dispatch/lookup/mod.rs :: impl ActorLookup for ActorStore :: remove
    requires old(self).inv(), bag(old(self).name_map).len() + old(self).uuid_map@.len() <= usize::MAX,
    ensures final(self).inv(), final(self).deadletter == old(self).deadletter,
        without(old(self).uuid_map@, final(self).uuid_map@, |a: DynActorRef| a.same(actor)),
        unnamed(old(self).name_map, final(self).name_map, |a: DynActorRef| a.same(actor)),
        r == bag(old(self).name_map).len() - bag(final(self).name_map).len() + old(self).uuid_map@.len() - final(self).uuid_map@.len(),
*/
/*@ fn core/src/dispatch/lookup/mod.rs :: impl ActorLookup for ActorStore :: cleanup
    requires old(self).inv(), bag(old(self).name_map).len() + old(self).uuid_map@.len() <= usize::MAX,
    ensures final(self).inv(), final(self).deadletter == old(self).deadletter,
        without(old(self).uuid_map@, final(self).uuid_map@, |a: DynActorRef| !a.alive()),
        unnamed(old(self).name_map, final(self).name_map, |a: DynActorRef| !a.alive()),
        r == bag(old(self).name_map).len() - bag(final(self).name_map).len() + old(self).uuid_map@.len() - final(self).uuid_map@.len(),
*/
}
proof fn keys_of(was: Map<Uuid, DynActorRef>, all: Seq<Pair>, kept: Seq<Pair>, keys: Seq<Uuid>, such: spec_fn(DynActorRef) -> bool)
    requires all.len() == was.len(), forall|i: int| 0 <= i < all.len() ==> was.contains_key(*(#[trigger] all[i]).0) && was[*all[i].0] == *all[i].1,
        forall|i: int, j: int| 0 <= i < j < all.len() ==> *(#[trigger] all[i]).0 != *(#[trigger] all[j]).0,
        forall|k: Uuid| #[trigger] was.contains_key(k) ==> exists|i: int| 0 <= i < all.len() && *(#[trigger] all[i]).0 == k,
        kept =~= chosen(all, such), keys.len() == kept.len(), forall|i: int| 0 <= i < keys.len() ==> #[trigger] keys[i] == *kept[i].0,
    ensures doomed(was, keys, such), keys.len() <= was.len(),
{
    chosen_ones(all, such);
    assert forall|k: Uuid| #[trigger] keys.contains(k) == (was.contains_key(k) && such(was[k])) by {
        if keys.contains(k) {
            let i = choose|i: int| 0 <= i < keys.len() && keys[i] == k;
            assert(all.contains(kept[i]));
        }
        if was.contains_key(k) && such(was[k]) {
            let i = choose|i: int| 0 <= i < all.len() && *(#[trigger] all[i]).0 == k;
            assert(kept.contains(all[i]));
            let j = choose|j: int| 0 <= j < kept.len() && kept[j] == all[i];
            assert(keys[j] == k);
        }
    }
}
/// Exactly those actors are gone.
spec fn without(a: Map<Uuid, DynActorRef>, b: Map<Uuid, DynActorRef>, gone: spec_fn(DynActorRef) -> bool) -> bool {
    forall|id: Uuid| #[trigger] b.contains_key(id) == (a.contains_key(id) && !gone(a[id])) && (b.contains_key(id) ==> b[id] == a[id])
}
spec fn unnamed(a: PathTrie<ActorTreeEntry>, b: PathTrie<ActorTreeEntry>, gone: spec_fn(DynActorRef) -> bool) -> bool {
    forall|k: Seq<Name>| #[trigger] content(b, k) == match content(a, k) {
        Some(ActorTreeEntry::Ref(x)) => if gone(x) { None } else { content(a, k) },
        o => o,
    }
}
spec fn is_ref(o: Option<ActorTreeEntry>) -> bool { o matches Some(ActorTreeEntry::Ref(_)) }
/// The actors at and below a node, each as often as it is registered.
spec fn members_of(s: Seq<&DynActorRef>, n: PathTrie<ActorTreeEntry>) -> bool {
    forall|a: DynActorRef| #[trigger] count_of(s, a) == bag(n).count(ActorTreeEntry::Ref(a))
}
spec fn count_of(s: Seq<&DynActorRef>, a: DynActorRef) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { count_of(s.drop_last(), a) + if *s.last() == a { 1nat } else { 0nat } }
}
proof fn counted(a: Seq<&DynActorRef>, b: Seq<&DynActorRef>, e: ActorTreeEntry)
    requires match e { ActorTreeEntry::Ref(x) => b == a.push(&x), _ => b == a },
    ensures forall|x: DynActorRef| #[trigger] count_of(b, x) == count_of(a, x) + if e == ActorTreeEntry::Ref(x) { 1nat } else { 0nat },
{
    if let ActorTreeEntry::Ref(x) = e { assert(b.drop_last() =~= a); }
}
spec fn group(r: LookupResult, n: PathTrie<ActorTreeEntry>, p: Policy) -> bool {
    r matches LookupResult::Group(g) && *g.policy == p && members_of(g.members@, n)
}
/// What looking up a name finds.
spec fn looked_up(t: ActorStore, path: Seq<Name>, r: LookupResult) -> bool {
    if path.len() == 0 {
        match t.deadletter { Some(a) => r matches LookupResult::Ref(b) && *b == a, None => r is None }
    } else if marker(path.last()) {
        let broadcast = path.last().text()[0] == '*';
        match node(t.name_map, path.drop_last()) {
            Some(n) => match n.value {
                Some(ActorTreeEntry::Ref(_)) => r is Err,
                Some(ActorTreeEntry::Policy(p)) => match (if broadcast { p.broadcasting() } else { p.selecting() }) {
                    Some(q) => group(r, n, q),
                    None => r is Err,
                },
                None => if routes_are_implicit() { group(r, n, default_of(broadcast)) } else { r is None },
            },
            None => r is None,
        }
    } else {
        match node(t.name_map, path) {
            Some(n) => match n.value {
                Some(ActorTreeEntry::Ref(a)) => r matches LookupResult::Ref(b) && *b == a,
                Some(ActorTreeEntry::Policy(p)) => group(r, n, p.whole()),
                None => r is None,
            },
            None => r is None,
        }
    }
}
/// Where a path leads to.
enum Place { Id(Uuid), Name(Seq<Name>), System }
spec fn place(p: PathResolvable) -> Place {
    match p {
        PathResolvable::Path(ActorPath::Unique(up)) => Place::Id(up.id),
        PathResolvable::Path(ActorPath::Named(np)) => Place::Name(np.path@),
        PathResolvable::Alias(alias) => Place::Name(split(alias)),
        PathResolvable::Segments(p) => Place::Name(p@),
        PathResolvable::ActorId(id) => Place::Id(id),
        PathResolvable::System => Place::System,
    }
}
/// The actor is registered there and nowhere else anew; the entry before it is returned.
spec fn inserted(a: ActorStore, b: ActorStore, path: PathResolvable, actor: DynActorRef, r: Result<InsertResult, PathParseError>) -> bool {
    match place(path) {
        Place::Id(id) => {
            &&& b.name_map == a.name_map && b.deadletter == a.deadletter && b.uuid_map@ == a.uuid_map@.insert(id, actor)
            &&& r == Ok::<InsertResult, PathParseError>(if a.uuid_map@.contains_key(id) { InsertResult::Ref(a.uuid_map@[id]) } else { InsertResult::None })
        }
        Place::Name(p) => {
            &&& b.uuid_map == a.uuid_map && b.deadletter == a.deadletter
            &&& match r {
                Ok(prev) => can_insert(p) && reported(a.named(p), prev) && only(a.name_map, b.name_map, p, Some(ActorTreeEntry::Ref(actor))),
                Err(_) => !can_insert(p) && b.name_map == a.name_map,
            }
        }
        Place::System => {
            &&& b.name_map == a.name_map && b.uuid_map == a.uuid_map && b.deadletter == Some(actor)
            &&& r == Ok::<InsertResult, PathParseError>(match a.deadletter { Some(d) => InsertResult::Ref(d), None => InsertResult::None })
        }
    }
}
fn main() {}
}
