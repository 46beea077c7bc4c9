// Methods of Vec that take closures, as their documentation defines them; inlined where they are called.
fn retain<T, F>(&mut self, mut f: F)
where
    F: FnMut(&T) -> bool,
{
    let mut at__: usize = 0;
    while at__ < self.len() {
        let keep__ = f(&self[at__]);
        if keep__ {
            at__ = at__ + 1;
        } else {
            self.remove(at__);
        }
    }
}

fn partition<T, F>(mut self, mut f: F) -> (Vec<T>, Vec<T>)
where
    F: FnMut(&T) -> bool,
{
    let mut yes__ = Vec::new();
    let mut no__ = Vec::new();
    while let Some(each__) = self.next() {
        let which__ = f(&each__);
        if which__ {
            yes__.push(each__);
        } else {
            no__.push(each__);
        }
    }
    (yes__, no__)
}

// Iterator::fold and HashMap::retain, as their documentation defines them.
fn fold<B, F>(mut self, init: B, mut f: F) -> B
where
    F: FnMut(B, Self::Item) -> B,
{
    let mut acc__ = init;
    while let Some(each__) = self.next() {
        acc__ = f(acc__, each__);
    }
    acc__
}

fn retain_entries<F>(&mut self, mut f: F)
where
    F: FnMut(&K, &mut V) -> bool,
{
    let mut names__ = self.all_names();
    while let Some(name__) = names__.next() {
        let keep__ = f(&name__, self.entry_at(&name__));
        if !keep__ {
            self.remove(&name__);
        }
    }
}

// Adaptors of iterators that keep or convert items one by one, collected as they go.
fn filter<P>(mut self, mut predicate: P) -> Line<Self::Item>
where
    P: FnMut(&Self::Item) -> bool,
{
    let mut kept__ = Line::new();
    while let Some(each__) = self.next() {
        let keep__ = predicate(&each__);
        if keep__ {
            kept__.push(each__);
        }
    }
    kept__
}

fn map<B, F>(mut self, mut f: F) -> Line<B>
where
    F: FnMut(Self::Item) -> B,
{
    let mut made__ = Line::new();
    while let Some(each__) = self.next() {
        let new__ = f(each__);
        made__.push(new__);
    }
    made__
}

fn flat_map<B, F>(mut self, mut f: F) -> Line<B>
where
    F: FnMut(Self::Item) -> Option<B>,
{
    let mut found__ = Line::new();
    while let Some(each__) = self.next() {
        let new__ = f(each__);
        if let Some(one__) = new__ {
            found__.push(one__);
        }
    }
    found__
}
