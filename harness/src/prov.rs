//! Problems handed to the simplex method directly: an explicit equality system over nonnegative
//! variables that announces no, some or a full initial basis.
use crate::big::Rat;
use crate::dense::Mat;
use crate::iface::{to_rb, RB};
use relp::algorithm::two_phase::matrix_provider::column::identity::Identity;
use relp::algorithm::two_phase::matrix_provider::column::{Column, SparseSliceIterator};
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::IntoFilteredColumn;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::phase_one::{FullInitialBasis, PartialInitialBasis};
use relp::data::linear_algebra::traits::{SparseComparator, SparseElement};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::BoundDirection;

#[derive(Debug, Clone)]
pub struct Col(pub Vec<(usize, RB)>);
impl IntoIterator for Col {
    type Item = (usize, RB);
    type IntoIter = std::vec::IntoIter<(usize, RB)>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl Column for Col {
    type F = RB;
    type Iter<'a> = SparseSliceIterator<'a, RB>;
    fn iter(&self) -> Self::Iter<'_> {
        SparseSliceIterator::new(&self.0)
    }
    fn index_to_string(&self, i: usize) -> String {
        self.0.iter().find(|e| e.0 == i).map_or_else(|| "0".to_string(), |e| e.1.to_string())
    }
}
impl Identity for Col {
    fn identity(i: usize, _len: usize) -> Self {
        Col(vec![(i, to_rb(&Rat::one()))])
    }
}
impl IntoFilteredColumn for Col {
    type Filtered = Self;
    fn into_filtered(self, to_remove: &[usize]) -> Self {
        Col(self
            .0
            .into_iter()
            .filter(|(i, _)| !to_remove.contains(i))
            .map(|(i, v)| (i - to_remove.iter().filter(|&&k| k < i).count(), v))
            .collect())
    }
}
pub fn col(v: &[Rat]) -> Col {
    Col(v.iter().enumerate().filter(|x| !x.1.is_zero()).map(|(i, x)| (i, to_rb(x))).collect())
}

#[derive(Debug, Clone)]
pub struct Sys {
    /// Rows of the matrix.
    pub a: Mat,
    pub b: Vec<Rat>,
    pub c: Vec<Rat>,
    /// How many of the last rows count as variable bounds.
    pub bounds: usize,
    pub pivots: Vec<(usize, usize)>,
    cols: Vec<Col>,
    costs: Vec<RB>,
    rhs: Vec<RB>,
}
impl Sys {
    pub fn new(a: Mat, b: Vec<Rat>, c: Vec<Rat>, bounds: usize, pivots: Vec<(usize, usize)>) -> Sys {
        let cols = (0..c.len()).map(|j| col(&a.iter().map(|r| r[j].clone()).collect::<Vec<_>>())).collect();
        let costs = c.iter().map(to_rb).collect();
        let rhs = b.iter().map(to_rb).collect();
        Sys { a, b, c, bounds, pivots, cols, costs, rhs }
    }
}
macro_rules! provider {
    ($t:ident) => {
        #[derive(Debug, Clone)]
        pub struct $t(pub Sys);
        impl MatrixProvider for $t {
            type Column = Col;
            type Cost<'a> = &'a RB where Self: 'a;
            type Rhs = RB;
            fn column(&self, j: usize) -> Col {
                self.0.cols[j].clone()
            }
            fn cost_value(&self, j: usize) -> &RB {
                &self.0.costs[j]
            }
            fn right_hand_side(&self) -> DenseVector<RB> {
                DenseVector::new(self.0.rhs.clone(), self.0.rhs.len())
            }
            fn bound_row_index(&self, _: usize, _: BoundDirection) -> Option<usize> {
                None
            }
            fn nr_constraints(&self) -> usize {
                self.0.b.len() - self.0.bounds
            }
            fn nr_variable_bounds(&self) -> usize {
                self.0.bounds
            }
            fn nr_columns(&self) -> usize {
                self.0.c.len()
            }
            fn reconstruct_solution<G: SparseElement<G> + SparseComparator>(&self, v: SparseVector<G, G>) -> SparseVector<G, G> {
                v
            }
        }
    };
}
provider!(Plain);
provider!(Partial);
provider!(Whole);
impl PartialInitialBasis for Partial {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> {
        self.0.pivots.clone()
    }
    fn nr_initial_elements(&self) -> usize {
        self.0.pivots.len()
    }
}
impl PartialInitialBasis for Whole {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> {
        self.0.pivots.clone()
    }
    fn nr_initial_elements(&self) -> usize {
        self.0.pivots.len()
    }
}
impl FullInitialBasis for Whole {}
