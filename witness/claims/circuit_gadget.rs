//! the in-circuit hash gadget takes exactly a message of its length and is consumed; the sponge absorbs, then squeezes
use halo2_proofs::circuit::{AssignedCell, Layouter};
use halo2_proofs::plonk::Error;
use halo2curves::bn256::Fr;
use poseidon_base::hash::HashSpec;
use poseidon_base::primitives::{Absorbing, ConstantLength, Squeezing};
use poseidon_circuit::poseidon::*;
type P = Pow5Chip<Fr, 3, 2>;
type S = HashSpec<Fr>;
type D = ConstantLength<2>;
type C = AssignedCell<Fr, Fr>;
type H = Hash<Fr, P, S, D, 3, 2>;
type Abs = Sponge<Fr, P, S, Absorbing<PaddedWord<Fr>, 2>, D, 3, 2>;
type Squ = Sponge<Fr, P, S, Squeezing<StateWord<Fr>, 2>, D, 3, 2>;
pub fn length(h: H, mut l: impl Layouter<Fr>, x: C) -> Result<C, Error> {
    //@ok h.hash(l.namespace(|| ""), [x.clone(), x])
    //@bad h.hash(l.namespace(|| ""), [x])
    //@bad h.hash(l.namespace(|| ""), [x.clone(), x.clone(), x])
    //@bad h.hash(l.namespace(|| ""), vec![x.clone(), x])
}
pub fn once(h: H, g: H, mut l: impl Layouter<Fr>, x: C) -> Result<C, Error> {
    h.hash(l.namespace(|| ""), [x.clone(), x.clone()])?;
    //@ok g.hash(l.namespace(|| ""), [x.clone(), x])
    //@bad h.hash(l.namespace(|| ""), [x.clone(), x])
}
pub fn order(mut a: Abs, mut l: impl Layouter<Fr>, x: C) -> Result<C, Error> {
    a.absorb(l.namespace(|| ""), PaddedWord::Message(x.clone()))?;
    //@ok
    //@bad a.squeeze(l.namespace(|| ""))?;
    let mut s: Squ = a.finish_absorbing(l.namespace(|| ""))?;
    //@ok
    //@bad s.absorb(l.namespace(|| ""), PaddedWord::Message(x.clone()))?;
    //@bad a.absorb(l.namespace(|| ""), PaddedWord::Message(x.clone()))?;
    //@bad let _ = s.finish_absorbing(l.namespace(|| ""))?;
    s.squeeze(l.namespace(|| ""))
}
pub fn inside(a: &Abs) {
    //@ok let _ = a;
    //@bad let _ = &a.state;
    //@bad let _ = &a.mode;
}
fn main() {}
