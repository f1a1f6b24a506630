use crate::system::Resource;

pub trait Event: Send + Sync + 'static {}
impl<T: Send + Sync + 'static> Event for T {}

pub struct Events<E: Event> {
    a: Vec<(u64, E)>,
    b: Vec<(u64, E)>,
    next: u64,
}
impl<E: Event> Default for Events<E> {
    fn default() -> Self {
        Events {
            a: vec![],
            b: vec![],
            next: 0,
        }
    }
}
impl<E: Event> Resource for Events<E> {}
impl<E: Event> Events<E> {
    pub fn send(&mut self, e: E) {
        let n = self.next;
        self.next += 1;
        self.b.push((n, e));
    }
    pub fn update(&mut self) {
        self.a = std::mem::take(&mut self.b);
    }
    pub fn update_system(mut events: crate::system::ResMut<Self>) {
        events.update();
    }
    pub fn is_empty(&self) -> bool {
        self.a.is_empty() && self.b.is_empty()
    }
    pub fn len(&self) -> usize {
        self.a.len() + self.b.len()
    }
    pub fn clear(&mut self) {
        self.a.clear();
        self.b.clear();
    }
    pub fn drain(&mut self) -> std::vec::IntoIter<E> {
        let a = std::mem::take(&mut self.a);
        let b = std::mem::take(&mut self.b);
        a.into_iter().chain(b).map(|x| x.1).collect::<Vec<_>>().into_iter()
    }
    pub fn iter_all(&self) -> impl Iterator<Item = &E> {
        self.a.iter().chain(self.b.iter()).map(|x| &x.1)
    }
}

pub struct EventWriter<'w, 's, E: Event> {
    pub(crate) events: &'w mut Events<E>,
    pub(crate) _s: std::marker::PhantomData<&'s ()>,
}
impl<'w, 's, E: Event> EventWriter<'w, 's, E> {
    pub fn send(&mut self, e: E) {
        self.events.send(e)
    }
    pub fn send_batch(&mut self, es: impl IntoIterator<Item = E>) {
        for e in es {
            self.events.send(e)
        }
    }
    pub fn send_default(&mut self)
    where
        E: Default,
    {
        self.events.send(E::default())
    }
}

pub struct EventReader<'w, 's, E: Event> {
    pub(crate) events: &'w Events<E>,
    pub(crate) seen: &'s mut u64,
}
impl<'w, 's, E: Event> EventReader<'w, 's, E> {
    pub fn iter(&mut self) -> std::vec::IntoIter<&E> {
        let from = *self.seen;
        *self.seen = self.events.next;
        self.events
            .a
            .iter()
            .chain(self.events.b.iter())
            .filter(|(n, _)| *n >= from)
            .map(|x| &x.1)
            .collect::<Vec<_>>()
            .into_iter()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn len(&self) -> usize {
        self.events
            .a
            .iter()
            .chain(self.events.b.iter())
            .filter(|(n, _)| *n >= *self.seen)
            .count()
    }
    pub fn clear(&mut self) {
        *self.seen = self.events.next;
    }
}
