//! Stand-in for the `static-bushes` git dependency (not fetchable here): a static point index.
#[derive(Debug, Clone)]
pub struct KDBushBuilder<T> {
    pts: Vec<[T; 2]>,
}
impl<T: Copy + PartialOrd> KDBushBuilder<T> {
    pub fn new() -> Self {
        KDBushBuilder { pts: Vec::new() }
    }
    pub fn add(&mut self, p: &[T; 2]) -> usize {
        self.pts.push(*p);
        self.pts.len() - 1
    }
    pub fn finish(self) -> KDBush<T> {
        KDBush { pts: self.pts }
    }
}
#[derive(Debug, Clone)]
pub struct KDBush<T> {
    pts: Vec<[T; 2]>,
}
impl<T: Copy + PartialOrd> KDBush<T> {
    pub fn search_range<'a>(
        &'a self,
        min_x: T,
        min_y: T,
        max_x: T,
        max_y: T,
    ) -> impl Iterator<Item = usize> + 'a {
        self.pts
            .iter()
            .enumerate()
            .filter(move |(_, p)| {
                p[0] >= min_x && p[0] <= max_x && p[1] >= min_y && p[1] <= max_y
            })
            .map(|(i, _)| i)
    }
    pub fn exact_as_vec(&self, x: T, y: T) -> Vec<usize> {
        self.search_range(x, y, x, y).collect()
    }
}
