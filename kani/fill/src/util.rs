use core::cell::Cell;

/// Any source of items: numbers from `at` on, ending (`None`) at any time, and not necessarily for good.
/// It counts in `asked` how often it was asked and in `given` how many items it gave.
pub struct Source<'c> {
    pub at: u8,
    pub count: &'c Counts,
    pub left: u8,
    /// Goes on after the end, with further items.
    pub revives: bool,
}
#[derive(Default)]
pub struct Counts {
    pub asked: Cell<u8>,
    pub given: Cell<u8>,
    /// Asked again after it had ended.
    pub late: Cell<bool>,
    ended: Cell<bool>,
}
impl Counts {
    pub fn ended(&self) -> bool {
        self.ended.get()
    }
}

impl<'c> Source<'c> {
    pub fn any(count: &'c Counts, most: u8) -> Self {
        let left = kani::any();
        kani::assume(left <= most);
        Source { at: 0, count, left, revives: kani::any() }
    }
}

impl Iterator for Source<'_> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        self.count.asked.set(self.count.asked.get() + 1);
        if self.count.ended.get() {
            self.count.late.set(true);
            if !self.revives {
                return None;
            }
        } else if self.left == 0 {
            self.count.ended.set(true);
            return None;
        } else {
            self.left -= 1;
        }
        self.count.given.set(self.count.given.get() + 1);
        self.at += 1;
        Some(self.at - 1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        // Any hint, true or not, and not the same each time.
        let (low, high): (u8, Option<u8>) = (kani::any(), kani::any());
        (low as usize, high.map(|high| high as usize))
    }
}

pub fn min(a: u8, b: u8) -> u8 {
    if a < b { a } else { b }
}
