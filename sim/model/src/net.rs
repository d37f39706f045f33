//! A continuous-time Bayesian network as plain data, and exact computations on its joint Markov process.

#[derive(Clone, Debug, PartialEq)]
pub struct Net {
    pub card: Vec<usize>,
    /// ascending
    pub parents: Vec<Vec<usize>>,
    /// cim[node][u][x][y], diagonal = -row sum
    pub cim: Vec<Vec<Vec<Vec<f64>>>>,
}

pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

impl Net {
    pub fn n(&self) -> usize {
        self.card.len()
    }
    /// number of parent configurations
    pub fn nu(&self, i: usize) -> usize {
        self.parents[i].iter().map(|&p| self.card[p]).product()
    }
    /// parent configuration index: parents ascending, the lowest one varies fastest
    pub fn u(&self, i: usize, s: &[usize]) -> usize {
        let mut r = 0;
        let mut m = 1;
        for &p in &self.parents[i] {
            r += s[p] * m;
            m *= self.card[p];
        }
        r
    }
    pub fn joint(&self) -> usize {
        self.card.iter().fold(1, |a: usize, c| a.saturating_mul(*c))
    }
    pub fn idx(&self, s: &[usize]) -> usize {
        let mut r = 0;
        let mut m = 1;
        for (i, &x) in s.iter().enumerate() {
            r += x * m;
            m *= self.card[i];
        }
        r
    }
    pub fn state(&self, mut k: usize) -> Vec<usize> {
        self.card
            .iter()
            .map(|&c| {
                let x = k % c;
                k /= c;
                x
            })
            .collect()
    }
    pub fn rate(&self, i: usize, s: &[usize], y: usize) -> f64 {
        self.cim[i][self.u(i, s)][s[i]][y]
    }
    /// exit rate of node i in joint state s (recomputed from the off-diagonal)
    pub fn exit(&self, i: usize, s: &[usize]) -> f64 {
        let row = &self.cim[i][self.u(i, s)][s[i]];
        row.iter().enumerate().filter(|(y, _)| *y != s[i]).map(|(_, q)| *q).sum()
    }
    /// all outgoing joint transitions of state k: (target, rate, node, from, to)
    pub fn out(&self, k: usize) -> Vec<(usize, f64, usize, usize, usize)> {
        let s = self.state(k);
        let mut v = vec![];
        let mut m = 1;
        for i in 0..self.n() {
            let u = self.u(i, &s);
            for y in 0..self.card[i] {
                if y != s[i] && self.cim[i][u][s[i]][y] > 0.0 {
                    v.push((k + y * m - s[i] * m, self.cim[i][u][s[i]][y], i, s[i], y));
                }
            }
            m *= self.card[i];
        }
        v
    }

    /// Build from compact parameters.
    /// `edges`: bit p*8+c set means p -> c.  `style` selects the shape of the intensities.
    pub fn build(card: &[usize], edges: u64, style: i64, seed: u64) -> Net {
        let n = card.len();
        let mut parents = vec![vec![]; n];
        for p in 0..n {
            for c in 0..n {
                if p != c && edges >> (p * 8 + c) & 1 == 1 {
                    parents[c].push(p);
                }
            }
        }
        Net::with_parents(card, parents, style, seed)
    }
    /// As `build`, the (sorted) parents are given.
    pub fn with_parents(card: &[usize], parents: Vec<Vec<usize>>, style: i64, seed: u64) -> Net {
        let n = card.len();
        let mut net = Net { card: card.to_vec(), parents, cim: vec![vec![]; n] };
        let mut r = Mix(seed ^ 0xabcdef);
        for i in 0..n {
            let nu = net.nu(i);
            let c = card[i];
            let mut blocks = vec![];
            for _ in 0..nu {
                let mut b = vec![vec![0.0; c]; c];
                for x in 0..c {
                    let keep = r.below(c as u64 - 1) as usize;
                    let mut j = 0;
                    for y in 0..c {
                        if x == y {
                            continue;
                        }
                        let v = match style {
                            0 => (1 + r.below(16)) as f64 * 0.25,
                            1 => 0.1 + 4.9 * r.f(),
                            2 => {
                                let v = (1 + r.below(16)) as f64 * 0.25;
                                if j != keep && r.below(2) == 0 {
                                    0.0
                                } else {
                                    v
                                }
                            }
                            3 => 10f64.powf(-2.0 + 4.0 * r.f()),
                            4 => 1.0 + 0.1 * r.f(),
                            5 => {
                                // sparse with arbitrary floats: rounding of row sums
                                let v = 0.05 + 3.0 * r.f();
                                if j != keep && r.below(3) == 0 {
                                    0.0
                                } else {
                                    v
                                }
                            }
                            7 => 10f64.powf(-7.0 + 14.0 * r.f()),
                            // one dominating successor
                            _ => {
                                if j == keep {
                                    8.0 + r.f()
                                } else {
                                    0.2 + 0.1 * r.f()
                                }
                            }
                        };
                        b[x][y] = v;
                        j += 1;
                    }
                    if style == 8 {
                        // every configuration of the parents has the same exit rates but other successors
                        let mut v: Vec<f64> = (0..c - 1).map(|j| if c > 3 && j == 0 { 0.0 } else { (1 + j + x) as f64 * 0.5 }).collect();
                        if c == 2 {
                            v[0] = (1 + r.below(3)) as f64;
                        }
                        for j in (1..v.len()).rev() {
                            v.swap(j, r.below(j as u64 + 1) as usize);
                        }
                        v.insert(x, 0.0);
                        b[x] = v;
                    }
                    let sum: f64 = b[x].iter().sum();
                    b[x][x] = -sum;
                }
                blocks.push(b);
            }
            net.cim[i] = blocks;
        }
        net
    }

    /// largest total exit rate over joint states
    /// exact for up to 5000 joint states, a bound beyond
    pub fn max_exit(&self) -> f64 {
        if self.joint() > 5000 {
            return (0..self.n())
                .map(|i| {
                    self.cim[i].iter().flatten().map(|r| r.iter().filter(|q| **q > 0.0).sum::<f64>()).fold(0.0, f64::max)
                })
                .sum();
        }
        (0..self.joint()).map(|k| self.out(k).iter().map(|t| t.1).sum::<f64>()).fold(0.0, f64::max)
    }

    /// First four raw moments, for every initial state, of the reward collected over [0, horizon]:
    /// rate r(s) per unit time plus c(s->s') per transition, discounted by exp(-beta t).
    /// Integrates the backward equations with classical Runge-Kutta.
    pub fn reward_moments(
        &self,
        horizon: f64,
        beta: f64,
        inst: &dyn Fn(&[usize]) -> f64,
        trans: &dyn Fn(usize, usize, usize) -> f64,
    ) -> Vec<[f64; 4]> {
        let m = self.joint();
        let outs: Vec<Vec<(usize, f64, f64)>> = (0..m)
            .map(|k| self.out(k).into_iter().map(|(t, q, i, x, y)| (t, q, trans(i, x, y))).collect())
            .collect();
        let r: Vec<f64> = (0..m).map(|k| inst(&self.state(k))).collect();
        let lam = self.max_exit() + beta.abs();
        let steps = ((horizon * lam * 12.0).ceil() as usize).max(60);
        let h = horizon / steps as f64;
        // v_k' = k r v_(k-1) + sum_q (E (c + v)^k - v_k) - k beta v_k
        let f = |v: &[[f64; 4]], d: &mut [[f64; 4]]| {
            for k in 0..m {
                let w = &v[k];
                let mut a = [
                    r[k] - beta * w[0],
                    2.0 * r[k] * w[0] - 2.0 * beta * w[1],
                    3.0 * r[k] * w[1] - 3.0 * beta * w[2],
                    4.0 * r[k] * w[2] - 4.0 * beta * w[3],
                ];
                for &(t, q, c) in &outs[k] {
                    let x = &v[t];
                    let c2 = c * c;
                    a[0] += q * (c + x[0] - w[0]);
                    a[1] += q * (c2 + 2.0 * c * x[0] + x[1] - w[1]);
                    a[2] += q * (c2 * c + 3.0 * c2 * x[0] + 3.0 * c * x[1] + x[2] - w[2]);
                    a[3] += q * (c2 * c2 + 4.0 * c2 * c * x[0] + 6.0 * c2 * x[1] + 4.0 * c * x[2] + x[3] - w[3]);
                }
                d[k] = a;
            }
        };
        let zero = vec![[0.0; 4]; m];
        let mut v = zero.clone();
        let mut k = [zero.clone(), zero.clone(), zero.clone(), zero.clone()];
        let mut t = zero;
        for _ in 0..steps {
            for s in 0..4 {
                let w = [0.0, 0.5, 0.5, 1.0][s];
                for i in 0..m {
                    for j in 0..4 {
                        t[i][j] = v[i][j] + if s > 0 { w * h * k[s - 1][i][j] } else { 0.0 };
                    }
                }
                f(&t, &mut k[s]);
            }
            for i in 0..m {
                for j in 0..4 {
                    v[i][j] += h / 6.0 * (k[0][i][j] + 2.0 * k[1][i][j] + 2.0 * k[2][i][j] + k[3][i][j]);
                }
            }
        }
        v
    }
}

/// mean, standard deviation, skewness and excess kurtosis from raw moments
pub fn shape(v: &[f64; 4]) -> (f64, f64, f64, f64) {
    let m = v[0];
    let var = (v[1] - m * m).max(0.0);
    let c3 = v[2] - 3.0 * m * v[1] + 2.0 * m * m * m;
    let c4 = v[3] - 4.0 * m * v[2] + 6.0 * m * m * v[1] - 3.0 * m * m * m * m;
    let sd = var.sqrt();
    (m, sd, c3 / (var * sd), c4 / (var * var) - 3.0)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn moments_of_poisson() {
        // two states, symmetric rate 2, reward 1 per transition: number of jumps in [0,3] ~ Poisson(6)
        let mut n = Net::build(&[2], 0, 0, 1);
        n.cim[0][0] = vec![vec![-2.0, 2.0], vec![2.0, -2.0]];
        let (m, s, k3, k4) = shape(&n.reward_moments(3.0, 0.0, &|_| 0.0, &|_, _, _| 1.0)[0]);
        assert!((m - 6.0).abs() < 1e-6 && (s - 6f64.sqrt()).abs() < 1e-5);
        assert!((k3 - 1.0 / 6f64.sqrt()).abs() < 1e-3 && (k4 - 1.0 / 6.0).abs() < 1e-3, "{} {}", k3, k4);
        let (m, s, _, _) = shape(&n.reward_moments(3.0, 0.5, &|_| 2.0, &|_, _, _| 0.0)[1]);
        let e = 2.0 * (1.0 - (-1.5f64).exp()) / 0.5;
        assert!((m - e).abs() < 1e-8 && s < 1e-3);
    }
}
