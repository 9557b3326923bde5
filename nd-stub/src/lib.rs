//! Stand-in for the crate `nd-triangulation` (a wrapper around CGAL, which is not installed here).
//!
//! It offers the part of the API that osmgraphing uses and computes the convex hull by brute force.
//! Observable behaviour kept: vertex-ids count up from 0 per call of `add_vertex`, inserting an
//! already present point re-labels that vertex, cell-ids start at 1, are assigned lazily and are
//! stable as long as the facet belongs to the hull, and cells of a point-set of affine dimension k
//! have k finite vertices.

use std::collections::HashMap;
use std::fmt;

#[non_exhaustive]
#[derive(Debug, PartialEq, Eq)]
pub enum TriangulationError {
    WrongDimension {
        actual_dim: usize,
        expected_dim: usize,
    },
}

impl fmt::Display for TriangulationError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            TriangulationError::WrongDimension {
                actual_dim,
                expected_dim,
            } => write!(f, "wrong dimension {} != {}", actual_dim, expected_dim),
        }
    }
}

impl std::error::Error for TriangulationError {}

#[derive(Debug)]
pub struct Triangulation {
    dim: usize,
    next_vertex_id: usize,
    next_cell_id: usize,
    /// (coordinates, current id)
    points: Vec<(Vec<f64>, usize)>,
    /// facet (sorted point-indices) -> cell-id
    cell_ids: HashMap<Vec<usize>, usize>,
}

#[derive(Debug, PartialEq, Clone)]
pub struct Vertex {
    id: usize,
    coords: Vec<f64>,
}

impl Vertex {
    pub fn id(&self) -> usize {
        self.id
    }
    pub fn coords(&self) -> &[f64] {
        &self.coords
    }
}

#[derive(Debug, PartialEq, Clone)]
pub struct Cell {
    id: usize,
    vertices: Vec<Vertex>,
}

impl Cell {
    pub fn id(&self) -> usize {
        self.id
    }
    pub fn vertices(&self) -> std::vec::IntoIter<Vertex> {
        self.vertices.clone().into_iter()
    }
}

impl Triangulation {
    pub fn new(dim: usize) -> Triangulation {
        Triangulation {
            dim,
            next_vertex_id: 0,
            next_cell_id: 1,
            points: Vec::new(),
            cell_ids: HashMap::new(),
        }
    }

    pub fn add_vertex(&mut self, coords: &[f64]) -> Result<usize, TriangulationError> {
        if coords.len() != self.dim {
            return Err(TriangulationError::WrongDimension {
                actual_dim: coords.len(),
                expected_dim: self.dim,
            });
        }
        let id = self.next_vertex_id;
        self.next_vertex_id += 1;
        if let Some(p) = self.points.iter_mut().find(|p| &p.0[..] == coords) {
            p.1 = id;
        } else {
            self.points.push((coords.to_vec(), id));
        }
        Ok(id)
    }

    pub fn convex_hull_cells(&mut self) -> std::vec::IntoIter<Cell> {
        let facets = hull(
            &self
                .points
                .iter()
                .map(|(c, _)| c.clone())
                .collect::<Vec<_>>(),
        );
        let mut cells = Vec::with_capacity(facets.len());
        let mut new_ids = HashMap::new();
        for facet in facets {
            let id = match self.cell_ids.get(&facet) {
                Some(&id) => id,
                None => {
                    let id = self.next_cell_id;
                    self.next_cell_id += 1;
                    id
                }
            };
            cells.push(Cell {
                id,
                vertices: facet
                    .iter()
                    .map(|&i| Vertex {
                        id: self.points[i].1,
                        coords: self.points[i].0.clone(),
                    })
                    .collect(),
            });
            new_ids.insert(facet, id);
        }
        // facets, that left the hull, are new cells if they should ever come back
        self.cell_ids = new_ids;
        cells.into_iter()
    }
}

fn sub(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x - y).collect()
}
fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
fn norm(a: &[f64]) -> f64 {
    dot(a, a).sqrt()
}

/// Removes the part of `v` lying in the span of the orthonormal `basis`
fn residue(v: &[f64], basis: &[Vec<f64>]) -> Vec<f64> {
    let mut r = v.to_vec();
    for _ in 0..2 {
        for b in basis {
            let s = dot(&r, b);
            for (x, y) in r.iter_mut().zip(b) {
                *x -= s * y;
            }
        }
    }
    r
}

/// All hull-facets as sorted lists of point-indices
fn hull(points: &[Vec<f64>]) -> Vec<Vec<usize>> {
    let n = points.len();
    if n == 0 {
        return vec![vec![]];
    }
    let scale = points
        .iter()
        .map(|p| norm(&sub(p, &points[0])))
        .fold(0.0, f64::max);
    if scale == 0.0 {
        return vec![vec![]];
    }
    let eps = 1e-9 * scale;

    // affine basis
    let mut basis: Vec<Vec<f64>> = Vec::new();
    for p in points {
        let r = residue(&sub(p, &points[0]), &basis);
        let l = norm(&r);
        if l > eps {
            basis.push(r.iter().map(|x| x / l).collect());
        }
    }
    let k = basis.len();
    let coords: Vec<Vec<f64>> = points
        .iter()
        .map(|p| {
            let d = sub(p, &points[0]);
            basis.iter().map(|b| dot(&d, b)).collect()
        })
        .collect();

    let mut facets = Vec::new();
    let mut comb: Vec<usize> = (0..k).collect();
    if k > n {
        return facets;
    }
    loop {
        if is_facet(&coords, &comb, k, eps) {
            facets.push(comb.clone());
        }
        // next combination
        let mut i = k;
        let mut done = true;
        while i > 0 {
            i -= 1;
            if comb[i] < n - k + i {
                comb[i] += 1;
                for j in i + 1..k {
                    comb[j] = comb[j - 1] + 1;
                }
                done = false;
                break;
            }
        }
        if done {
            break;
        }
    }
    facets
}

fn is_facet(coords: &[Vec<f64>], comb: &[usize], k: usize, eps: f64) -> bool {
    // orthonormal basis of the facet's direction-space
    let p0 = &coords[comb[0]];
    let mut basis: Vec<Vec<f64>> = Vec::new();
    for &i in &comb[1..] {
        let r = residue(&sub(&coords[i], p0), &basis);
        let l = norm(&r);
        if l <= eps {
            return false; // degenerate simplex
        }
        basis.push(r.iter().map(|x| x / l).collect());
    }
    // normal
    let mut normal: Option<Vec<f64>> = None;
    for axis in 0..k {
        let mut e = vec![0.0; k];
        e[axis] = 1.0;
        let r = residue(&e, &basis);
        let l = norm(&r);
        let better = match &normal {
            None => l > 1e-9,
            Some(n) => l > norm(n) + 1e-12,
        };
        if better {
            normal = Some(r);
        }
    }
    let normal = match normal {
        Some(n) => {
            let l = norm(&n);
            n.iter().map(|x| x / l).collect::<Vec<_>>()
        }
        None => return false,
    };
    let mut pos = false;
    let mut neg = false;
    for c in coords {
        let s = dot(&sub(c, p0), &normal);
        if s > eps {
            pos = true;
        }
        if s < -eps {
            neg = true;
        }
    }
    !(pos && neg)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn triangle() {
        let mut t = Triangulation::new(2);
        assert!(t.add_vertex(&[1.0]).is_err());
        t.add_vertex(&[1.0, 1.0]).unwrap();
        t.add_vertex(&[2.0, 1.0]).unwrap();
        t.add_vertex(&[1.5, 1.5]).unwrap();
        let ids: Vec<_> = t.convex_hull_cells().map(|c| c.id()).collect();
        assert_eq!(ids, vec![1, 2, 3]);
        assert!(t.convex_hull_cells().all(|c| c.vertices().count() == 2));
        t.add_vertex(&[1.5, 1.2]).unwrap();
        let ids: Vec<_> = t.convex_hull_cells().map(|c| c.id()).collect();
        assert_eq!(ids, vec![1, 2, 3]);
        t.add_vertex(&[1.5, 0.5]).unwrap();
        let ids: Vec<_> = t.convex_hull_cells().map(|c| c.id()).collect();
        assert_eq!(ids.len(), 4);
    }
    #[test]
    fn cube() {
        let mut t = Triangulation::new(3);
        for x in 0..2 {
            for y in 0..2 {
                for z in 0..2 {
                    t.add_vertex(&[x as f64, y as f64, z as f64]).unwrap();
                }
            }
        }
        assert!(t.convex_hull_cells().all(|c| c.vertices().count() == 3));
        assert_eq!(t.convex_hull_cells().count(), 24);
    }
}
