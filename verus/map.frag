// ---- std::collections::HashMap (and FxHashMap), by its contract
//@ subst std::collections::hash_map::HashMap => HashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: std::marker::PhantomData<(K, V)> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Entry<'a, K, V> { k: std::marker::PhantomData<&'a mut (K, V)> }

impl<K, V> View for HashMap<K, V> {
    type V = Map<K, V>;
    uninterp spec fn view(&self) -> Map<K, V>;
}
impl<'a, K, V> Entry<'a, K, V> {
    uninterp spec fn key(self) -> K;
    uninterp spec fn before(self) -> Map<K, V>;
    uninterp spec fn after(self) -> Map<K, V>;
    #[verifier::external_body]
    fn or_default(self) -> (r: &'a mut V)
        where V: Empty
        ensures
            *r == (if self.before().contains_key(self.key()) { self.before()[self.key()] } else { V::none() }),
            self.after() == self.before().insert(self.key(), *final(r)),
    { unimplemented!() }
}
/// The value `Default` gives.
trait Empty: Sized { spec fn none() -> Self; }

impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r@ == Map::<K, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        ensures r.key() == k, r.before() == old(self)@, r.after() == final(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) },
    { unimplemented!() }
    #[verifier::external_body]
    fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
        },
    { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.contains_key(*k),
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            match r { Some(v) => old(self)@.contains_key(*k) && v == old(self)@[*k], None => !old(self)@.contains_key(*k) },
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            match r { Some(v) => old(self)@.contains_key(k) && v == old(self)@[k], None => !old(self)@.contains_key(k) },
    { unimplemented!() }
}
