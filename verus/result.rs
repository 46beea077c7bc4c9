// Result::map, as its documentation defines it; inlined where it is called.
fn map<U, F>(self, op: F) -> Result<U, E>
where
    F: FnOnce(T) -> U,
{
    match self {
        Ok(t__) => Ok(op(t__)),
        Err(e__) => Err(e__),
    }
}

// Iterator::for_each of a range.
fn for_each<F>(mut self, mut f: F)
where
    F: FnMut(usize),
{
    while self.start < self.end {
        let at__ = self.start;
        self.start = self.start + 1;
        f(at__);
    }
}

// Option::is_some_and, and Iterator::any.
fn is_some_and<F>(self, f: F) -> bool
where
    F: FnOnce(T) -> bool,
{
    match self {
        None => false,
        Some(x__) => f(x__),
    }
}

fn any<F>(mut self, mut f: F) -> bool
where
    F: FnMut(Self::Item) -> bool,
{
    let mut found__ = false;
    while let Some(each__) = self.next() {
        if f(each__) {
            found__ = true;
            break;
        }
    }
    found__
}
