//! Stand-in for apendleton/static-bushes (git dependency, not fetchable offline).
//! Contract: a static 2-d point index; ids are insertion positions. Linear scan.

pub struct KDBushBuilder<T> {
    pts: Vec<[T; 2]>,
}

pub struct KDBush<T> {
    pts: Vec<[T; 2]>,
}

impl<T: Copy + PartialOrd> KDBushBuilder<T> {
    pub fn new() -> Self {
        KDBushBuilder { pts: Vec::new() }
    }
    pub fn add(&mut self, p: &[T; 2]) {
        self.pts.push(*p);
    }
    pub fn finish(self) -> KDBush<T> {
        KDBush { pts: self.pts }
    }
}

impl<T: Copy + PartialOrd> KDBush<T> {
    pub fn len(&self) -> usize {
        self.pts.len()
    }
    pub fn exact_as_vec(&self, x: T, y: T) -> Vec<usize> {
        let mut out = Vec::new();
        for (i, p) in self.pts.iter().enumerate() {
            if p[0] == x && p[1] == y {
                out.push(i);
            }
        }
        out
    }
    pub fn search_range<'a>(
        &'a self,
        min_x: T,
        min_y: T,
        max_x: T,
        max_y: T,
    ) -> impl Iterator<Item = usize> + 'a
    where
        T: 'a,
    {
        self.pts.iter().enumerate().filter_map(move |(i, p)| {
            if (p[0] >= min_x) & (p[0] <= max_x) & (p[1] >= min_y) & (p[1] <= max_y) {
                Some(i)
            } else {
                None
            }
        })
    }
}
